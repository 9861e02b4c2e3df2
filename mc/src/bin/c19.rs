//! C19: uniform-cost search returns a path of lowest total cost.
use mc::model::*;
use mc::search::*;
use mc::*;
use sqrid::*;

/// Totals from here on can not be represented; a search may take such a
/// square for unreachable, but has to end.
const TOO_MUCH: u128 = usize::MAX as u128;

fn judge<P: Sp>(name: &str, r: &Result<Vec<Dir>, Error>, pr: &Priced, q: &Sq<P>, o: usize, d: usize, low: &[Option<u128>], c: &mut Ctx) -> Res {
    c.step();
    let far = low[d].is_some_and(|l| l >= TOO_MUCH);
    match (r, low[d]) {
        (Err(Error::DestinationUnreachable), None) => Ok(()),
        (Err(Error::DestinationUnreachable), Some(_)) if far => Ok(()),
        (Ok(path), Some(b)) => {
            if path.len() > 4 * pr.lay.n() {
                bad!("{name} from {:?} to {:?}: {}", q.p[o], q.p[d], show(path));
            }
            let cost = match pr.walk(o, path) {
                Err(e) => bad!("{name} from {:?} to {:?}: {e}", q.p[o], q.p[d]),
                Ok((e, _)) if e != d => bad!("{name} from {:?} to {:?}: path {} leads to {:?}", q.p[o], q.p[d], show(path), q.p[e]),
                Ok((_, cost)) => cost,
            };
            if o == d && !path.is_empty() {
                bad!("{name} from {:?} to itself: path {}", q.p[o], show(path));
            }
            if !far {
                same!(cost, b, "{name} from {:?} to {:?}: cost of path {}", q.p[o], q.p[d], show(path));
            }
            Ok(())
        }
        (r, b) => bad!("{name} from {:?} to {:?}: got {}, lowest cost is {b:?}", q.p[o], q.p[d], match r {
            Ok(path) => show(path),
            Err(e) => format!("{e:?}"),
        }),
    }
}

fn case<P: Sp, const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(pr: &Priced, q: &Sq<P>, origins: &[usize], dests: &[usize], every: bool, c: &mut Ctx) -> Res {
    let go = pr.go(q);
    let go: &dyn Fn(P, Dir) -> Option<(P, usize)> = &go;
    for &o in origins {
        let low = pr.lowest(o);
        c.outcome(&low);
        let p = &q.p[o];
        for &d in dests {
            c.state();
            let t = &q.p[d];
            macro_rules! j {
                ($name:expr, $r:expr) => {
                    judge($name, &$r, pr, q, o, d, &low, c)?
                };
            }
            j!("ucs_path", Sqrid::<X, Y, D, W, S>::ucs_path(go, p, t));
            if every {
                j!("ucs_path_grid", Sqrid::<X, Y, D, W, S>::ucs_path_grid(go, p, t));
                j!("ucs_path_hash", Sqrid::<X, Y, D, W, S>::ucs_path_hash(go, p, t));
                j!("ucs_path_btree", Sqrid::<X, Y, D, W, S>::ucs_path_btree(go, p, t));
                j!("ucs::search_path_grid", ucs::search_path_grid::<_, P, D, W, S>(go, p, t));
                j!("ucs::search_path_hash", ucs::search_path_hash::<_, P, D, W, S>(go, p, t));
                j!("ucs::search_path_btree", ucs::search_path_btree::<_, P, D, W, S>(go, p, t));
                let r = ucs::search_mapmov::<_, Grid<Option<Dir>, P, S>, Grid<usize, P, S>, P, D, W, S>(go, p, t);
                j!("ucs::search_mapmov", r.and_then(|m| camefrom_into_path::<Grid<Option<Dir>, P, S>, P, W, S>(m, p, t)));
            }
        }
    }
    Ok(())
}

fn kinds<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(k: &mut Check, prices: Prices, most: usize, every: bool) {
    let q = Sq::<Pos<X, Y>>::new();
    let some = spots(q.w, q.h, most);
    let what = format!("{} origins x {} destinations{}", some.len(), some.len(), if every { ", every variant and entry point" } else { ", default variant" });
    priced(k, if every { "all variants" } else { "" }, prices, q.w, q.h, D, &what, move |pr, c| case::<Pos<X, Y>, X, Y, D, W, S>(pr, &q, &some, &some, every, c));
}

fn user<P: Sp, const D: bool>(k: &mut Check, name: &str, prices: Prices, q: Sq<P>, most: usize) {
    let some = spots(q.w, q.h, most);
    priced(k, name, prices, q.w, q.h, D, &format!("positions of type {name}, hash and tree variants, {} origins x destinations", some.len()), move |pr, c| {
        let go = pr.go(&q);
        let go: &dyn Fn(P, Dir) -> Option<(P, usize)> = &go;
        for &o in &some {
            let low = pr.lowest(o);
            for &d in &some {
                c.state();
                judge("ucs_path_hash", &Sqrid::<0, 0, D, 0, 0>::ucs_path_hash(go, &q.p[o], &q.p[d]), pr, &q, o, d, &low, c)?;
                judge("ucs_path_btree", &Sqrid::<0, 0, D, 0, 0>::ucs_path_btree(go, &q.p[o], &q.p[d]), pr, &q, o, d, &low, c)?;
            }
            c.outcome(&low);
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C19", "cost assignments x origins x destinations searched", "answers of the real searches, each judged against the lowest costs");
    let deep = k.thorough();
    const ALL: usize = usize::MAX;
    const M: usize = usize::MAX;
    let st = |v: &[i64]| Prices::Steps(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    let en = |v: &[i64]| Prices::Entering(v.iter().map(|c| if *c < 0 { None } else { Some(*c as usize) }).collect());
    let huge = || Prices::Steps(vec![None, Some(0), Some(1), Some(M / 2), Some(M / 2 + 1), Some(M - 1), Some(M)]);
    both_diags! { kinds(&mut k, st(&[-1, 0, 1, 2, 7]), ALL, true); (0, 0) (1, 0) (0, 1) (2, 0) }
    both_diags! { kinds(&mut k, st(&[-1, 0, 1, 3]), ALL, false); (0, 2) (3, 0) (0, 3) }
    both_diags! { kinds(&mut k, huge(), ALL, true); (1, 0) (2, 0) }
    both_diags! { kinds(&mut k, huge(), ALL, false); (0, 1) (0, 2) (3, 0) }
    kinds::<1, 1, false, 1, 4>(&mut k, st(&[-1, 0, 1, 3]), ALL, true);
    kinds::<1, 1, false, 1, 4>(&mut k, st(&[0, 1, 2, 5, 9]), ALL, false);
    kinds::<1, 1, false, 1, 4>(&mut k, Prices::Steps(vec![None, Some(1), Some(M / 2), Some(M - 1)]), ALL, false);
    kinds::<1, 1, true, 1, 4>(&mut k, st(&[-1, 1, 3]), ALL, false);
    kinds::<2, 1, false, 1, 6>(&mut k, st(&[1, 3]), ALL, true);
    kinds::<1, 2, false, 1, 6>(&mut k, st(&[0, 1]), ALL, false);
    kinds::<2, 1, true, 1, 6>(&mut k, en(&[-1, 0, 1, 2, 5]), ALL, true);
    kinds::<1, 2, false, 1, 6>(&mut k, en(&[-1, 0, 1, 2, 5]), ALL, false);
    kinds::<2, 2, false, 1, 9>(&mut k, en(&[-1, 1, 4]), ALL, false);
    kinds::<2, 2, true, 1, 9>(&mut k, en(&[-1, 1, 4]), ALL, false);
    kinds::<2, 2, true, 1, 9>(&mut k, en(&[0, 1, 5]), ALL, false);
    both_diags! { kinds(&mut k, en(&[1, 5]), 5, false); (3, 3) }
    both_diags! { kinds(&mut k, Prices::Patterns, 20, true); (6, 4) (7, 3) (32, 0) (0, 31) (2, 10) }
    both_diags! { kinds(&mut k, Prices::Patterns, 12, false); (4, 5) (3, 7) (15, 3) (9, 9) (30, 31) (99, 9) (255, 0) (0, 256) }
    both_diags! { kinds(&mut k, Prices::Patterns, 4, false); (65535, 0) (0, 65535) (127, 127) }
    // Prices next to each other that must not be confused, whatever the costs are kept in
    for b in [255, 65535, 1 << 24, (1 << 31) - 1, (1 << 32) - 1, 1 << 53, M / 2 - 1] {
        kinds::<1, 1, false, 1, 4>(&mut k, Prices::Steps(vec![Some(0), Some(1), Some(b), Some(b + 1)]), ALL, false);
    }
    for b in [127, 255, 32767, 65535, 1 << 23, 1 << 24, (1 << 31) - 1, (1 << 32) - 1, 1 << 48, 1 << 52, 1 << 53, 1 << 56, M / 4, M / 2 - 1, M - 2] {
        both_diags! { kinds(&mut k, Prices::Steps(vec![Some(0), Some(1), Some(b), Some(b + 1)]), ALL, true); (1, 0) (0, 2) }
        kinds::<1, 1, false, 1, 4>(&mut k, Prices::Entering(vec![Some(0), Some(1), Some(b - 1), Some(b), Some(b + 1)]), ALL, true);
        kinds::<1, 2, true, 1, 6>(&mut k, Prices::Entering(vec![Some(1), Some(b), Some(b + 1)]), ALL, true);
        kinds::<2, 1, false, 1, 6>(&mut k, Prices::Entering(vec![Some(1), Some(b), Some(b + 1)]), ALL, true);
    }
    if deep {
        kinds::<1, 1, true, 1, 4>(&mut k, st(&[-1, 0, 1, 3]), ALL, false);
        kinds::<1, 1, false, 1, 4>(&mut k, st(&[-1, 0, 1, 2, 3, 7, 20]), ALL, false);
        kinds::<2, 1, false, 1, 6>(&mut k, st(&[-1, 1, 3]), ALL, false);
        kinds::<1, 2, false, 1, 6>(&mut k, st(&[-1, 0, 1]), ALL, false);
        both_diags! { kinds(&mut k, en(&[-1, 0, 1, 4]), ALL, false); (2, 2) (3, 1) (1, 3) }
        both_diags! { kinds(&mut k, en(&[-1, 1, 5]), 4, false); (3, 2) (2, 3) }
        both_diags! { kinds(&mut k, en(&[1, 9]), ALL, false); (3, 3) (4, 2) (2, 4) }
        both_diags! { kinds(&mut k, Prices::Patterns, 4, false); (65535, 1) (1, 65535) (255, 255) (299, 217) }
    }
    user::<Mix53, true>(&mut k, "Mix53", Prices::Patterns, Sq::new(), ALL);
    user::<Off1, false>(&mut k, "Off1", Prices::Patterns, Sq::new(), ALL);
    user::<Off2, true>(&mut k, "Off2", en(&[-1, 0, 1, 4]), Sq::new(), ALL);
    user::<Off2, false>(&mut k, "Off2", st(&[1, 3]), Sq::new(), ALL);
    user::<OneCol, true>(&mut k, "OneCol", st(&[-1, 0, 1, 2, 7]), Sq::new(), ALL);
    user::<OneSq, true>(&mut k, "OneSq", st(&[-1, 0, 1]), Sq::new(), ALL);
    user::<(u8, u8), false>(&mut k, "(u8,u8)", Prices::Patterns, Sq::new(), 3);
    user::<(i8, i8), true>(&mut k, "(i8,i8)", Prices::Patterns, Sq::new(), 3);
    macro_rules! part {
        ($($t:ident $n:literal $x:expr, $y:expr;)*) => { $(
            user::<($t, $t), false>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), Prices::Patterns, Sq::part($x as i128, $y as i128, 6, 7), ALL);
            user::<($t, $t), true>(&mut k, concat!("(", stringify!($t), ",", stringify!($t), ") ", $n), en(&[-1, 1, 3]), Sq::part($x as i128, $y as i128, 3, 2), ALL);
        )* }
    }
    part! {
        i32 "around zero" -3, -3;
        i32 "at the limits" i32::MIN, i32::MAX - 8;
        i16 "at the limits" i16::MAX - 8, i16::MIN;
        i8 "around zero" -2, -4;
        u16 "at the limits" u16::MAX - 8, 0;
        u32 "in the middle" 1_000_000, 3_000_000_000u32;
        u64 "at the limits" u64::MAX / 2 - 8, u64::MAX / 4;
        u128 "across 64 bits" (u64::MAX as i128 - 2), (u64::MAX as i128 - 3);
    }
    k.assume("movement functions that answer the same for the same arguments and lead to the adjacent square");
    k.assume("lowest totals below usize::MAX; squares whose lowest total is not representable may be taken for unreachable, but the search has to end without panicking");
    k.run()
}
