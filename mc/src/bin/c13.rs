//! C13: a boolean grid is an independent boolean per position.
use mc::gb::*;
use mc::*;
use sqrid::*;
use std::collections::HashMap;

fn check<P: Pp, const W: usize>(g: &Gridbool<P, W>, m: &[bool], q: &Sq<P>, c: &mut Ctx) -> Res {
    read_cells(g, m, q, 0..m.len(), c)?;
    read_whole(g, m, q, c)
}

/// Everything reachable from the ways of creating a boolean grid: complete
/// state space, merged by representation.
fn reach<P: Pp, const W: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    let n = q.n();
    k.fam(
        format!("reachable {name}"),
        format!("all representations reachable from 5 ways of creation by {WAYS} ways of writing x {n} squares x 2 values, bulk setting and clearing of every row, column and everything"),
        1,
        move |_, c| {
            let mut starts: Vec<(Gridbool<P, W>, Vec<bool>)> = vec![
                (Gridbool::ALL_FALSE, vec![false; n]),
                (Gridbool::ALL_TRUE, vec![true; n]),
                (Gridbool::default(), vec![false; n]),
                (Gridbool::repeat(true), vec![true; n]),
                (Gridbool::repeat(false), vec![false; n]),
                ((0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 2 == 0).collect()),
            ];
            starts.push((q.p.iter().copied().step_by(3).collect(), (0..n).map(|i| i % 3 == 0).collect()));
            let mut seen: HashMap<[u32; W], Vec<bool>> = HashMap::new();
            let mut todo = vec![];
            for (g, m) in starts {
                check(&g, &m, &q, c).map_err(|e| Viol::from(format!("newly created {}: {}", show(&m), e.detail)))?;
                if seen.insert(*g.as_inner(), m.clone()).is_none() {
                    todo.push((g, m));
                }
            }
            while let Some((g, m)) = todo.pop() {
                let mut next = |g2: Gridbool<P, W>, m2: Vec<bool>, how: &dyn Fn() -> String, c: &mut Ctx| -> Res {
                    c.step();
                    match seen.get(g2.as_inner()) {
                        Some(old) if *old == m2 => Ok(()),
                        Some(old) => bad!("{}: after {} the representation is that of {}", show(&m), how(), show(old)),
                        None => {
                            check(&g2, &m2, &q, c).map_err(|e| Viol::from(format!("{} after {}: {}", show(&m), how(), e.detail)))?;
                            seen.insert(*g2.as_inner(), m2.clone());
                            todo.push((g2, m2));
                            Ok(())
                        }
                    }
                };
                for i in 0..n {
                    for v in [false, true] {
                        for how in 0..WAYS {
                            let mut g2 = g;
                            let mut m2 = m.clone();
                            let w = write(&mut g2, how, q.p[i], v);
                            m2[i] = v;
                            next(g2, m2, &|| format!("writing {v} to {:?} by {w}", q.p[i]), c)?;
                        }
                    }
                }
                // Bulk: rows, columns, all; through the position iterators of the library
                let groups: Vec<Vec<usize>> = (0..q.h)
                    .map(|y| (0..n).filter(|i| i / q.w == y).collect())
                    .chain((0..q.w).map(|x| (0..n).filter(|i| i % q.w == x).collect()))
                    .chain([(0..n).collect(), vec![]])
                    .collect();
                for grp in &groups {
                    for v in [false, true] {
                        for rev in [false, true] {
                            let mut ps: Vec<P> = grp.iter().map(|i| q.p[*i]).collect();
                            if rev {
                                ps.reverse();
                            }
                            let mut g2 = g;
                            if v {
                                g2.set_iter_t(ps.into_iter())
                            } else {
                                g2.set_iter_f(ps.into_iter())
                            }
                            let mut m2 = m.clone();
                            grp.iter().for_each(|i| m2[*i] = v);
                            next(g2, m2, &|| format!("bulk setting of {grp:?} to {v}"), c)?;
                        }
                    }
                }
            }
            c.note(|| format!("{} representations", seen.len()));
            if (seen.len() as u64) < 1 << n {
                bad!("only {} of the 2^{n} contents reached", seen.len());
            }
            seen.values().for_each(|m| c.outcome(m));
            Ok(())
        },
    );
}

/// All histories of writes on one live object.
fn histories<P: Pp, const W: usize>(k: &mut Check, name: &str, depth: u32) {
    let q = Sq::<P>::new();
    let n = q.n();
    let ops = (WAYS * n * 2) as u64;
    k.fam(
        format!("histories {name}"),
        format!("all sequences of {depth} writes ({WAYS} ways x {n} squares x 2 values) after ALL_TRUE and after ALL_FALSE"),
        ops.pow(depth) * 2,
        move |i, c| {
            let t = i % 2 == 1;
            let mut rest = i / 2;
            let mut g = Gridbool::<P, W>::repeat(t);
            let mut m = vec![t; n];
            let mut trace = vec![];
            for _ in 0..depth {
                let d = digits(rest, &[WAYS as u64, n as u64, 2]);
                rest /= ops;
                let (cell, v) = (d[1] as usize, d[2] == 1);
                let w = write(&mut g, d[0] as usize, q.p[cell], v);
                m[cell] = v;
                trace.push((w, cell, v));
                c.step();
            }
            c.note(|| format!("{trace:?}"));
            c.outcome(&m);
            check(&g, &m, &q, c).map_err(|e| format!("all {t}, then {trace:?}: {}", e.detail).into())
        },
    );
}

/// Contents that deviate from a pattern in up to two squares.
fn deviations<P: Pp, const W: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    let (n, w) = (q.n(), q.w);
    let clip = move |v: Vec<usize>| -> Vec<usize> {
        let mut v: Vec<usize> = v.into_iter().filter(|i| *i < n).collect();
        v.sort();
        v.dedup();
        v
    };
    let first: Vec<usize> = if n <= 300 {
        (0..n).collect()
    } else {
        clip(vec![0, 1, 7, 8, 30, 31, 32, 33, 62, 63, 64, 65, w - 1, w, w + 1, 255, 256, 257, n / 2, n - 65, n - 64, n - 34, n - 33, n - 32, n - 31, n - 2, n - 1, 65534, 65535, 65536, 65537])
    };
    let second = move |i: usize| -> Vec<usize> {
        let mut v = vec![0, n - 1, n / 32 * 32, (n / 32 * 32).saturating_sub(1), i];
        for d in [1, w, 8, 16, 32, 64] {
            v.push(i + d);
            v.push(i.wrapping_sub(d));
        }
        clip(v)
    };
    let nf = first.len() as u64;
    let big = n > 70 && !k.thorough() || n > 2000;
    k.fam(
        format!("deviations {name}"),
        format!("{n} squares all false, all true, or alternating; a first square ({}) written in {WAYS} ways x 2 values, then {} second squares near it and at word limits; everything read", if first.len() == n { "every one".to_string() } else { format!("{} of them", first.len()) }, if big { "2" } else { "up to 17" }),
        nf * 3,
        move |i, c| {
            let a = first[(i / 3) as usize];
            let pat = |j: usize| match i % 3 {
                0 => false,
                1 => true,
                _ => j % 2 == 0,
            };
            let m0: Vec<bool> = (0..n).map(pat).collect();
            let g0: Gridbool<P, W> = match i % 3 {
                0 => Gridbool::ALL_FALSE,
                1 => Gridbool::ALL_TRUE,
                _ => m0.iter().copied().collect(),
            };
            if i < 3 || n < 2000 && i % 7 == 0 {
                check(&g0, &m0, &q, c)?;
            }
            let mut turn = i as usize;
            for v in [false, true] {
                for how in 0..WAYS {
                    if big && how == 8 {
                        continue;
                    }
                    let mut g = g0;
                    let mut m = m0.clone();
                    let wr = write(&mut g, how, q.p[a], v);
                    m[a] = v;
                    let r = if big { read_cells(&g, &m, &q, second(a).into_iter(), c) } else { read_cells(&g, &m, &q, 0..n, c) };
                    r.map_err(|e| Viol::from(format!("{} after writing {v} to {:?} by {wr}: {}", show(&m0), q.p[a], e.detail)))?;
                    if big && n < 20_000 && how < 4 {
                        // nothing else changed
                        read_cells(&g, &m, &q, 0..n, c)?;
                    }
                    let mut seconds = second(a);
                    if big {
                        let l = seconds.len();
                        seconds = vec![seconds[turn % l], seconds[(turn * 7 + 3) % l]];
                    }
                    for b in seconds {
                        let (v2, how2) = (turn % 2 == 0, turn / 2 % 8);
                        turn += 1;
                        let mut g = g;
                        let mut m = m.clone();
                        write(&mut g, how2, q.p[b], v2);
                        m[b] = v2;
                        let r = if how < 2 && turn % 5 == 0 && n < 20_000 || n <= 33 || how == 0 && v && turn % 9 == 0 {
                            check(&g, &m, &q, c)
                        } else if big {
                            read_cells(&g, &m, &q, second(b).into_iter().chain([a]), c)
                        } else {
                            read_cells(&g, &m, &q, 0..n, c)
                        };
                        r.map_err(|e| Viol::from(format!("{} after writing {v} to {:?} by {wr} and {v2} to {:?}: {}", show(&m0), q.p[a], q.p[b], e.detail)))?;
                    }
                }
            }
            c.outcome(&(a, i % 3));
            Ok(())
        },
    );
}

/// Every mixture of calls on the iterators.
fn mixed<P: Pp + Ord, const W: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    let n = q.n();
    let all = n <= 9;
    k.fam(
        format!("mixed calls on the iterators of {name}"),
        format!("{} contents: of iter, iter_pos, iter_t and iter_f items taken one by one, then every way of going on: nth, skip, step_by, take, find, fold, count, last..., up to and beyond the end, and then the rest", if all { "all" } else { "10" }),
        if all { 1 << n } else { 10 },
        move |i, c| {
            let m: Vec<bool> = (0..n)
                .map(|j| match (all, i) {
                    (true, i) => i >> j & 1 == 1,
                    (_, 0) => false,
                    (_, 1) => true,
                    (_, 2) => j % 2 == 0,
                    (_, 3) => j == n - 1,
                    (_, 4) => j == 0 || j == 32,
                    (_, 5) => j >= 32,
                    (_, 6) => j < 32,
                    (_, i) => j % (i as usize - 4) == 1,
                })
                .collect();
            let g: Gridbool<P, W> = m.iter().copied().collect();
            let what = |w: &'static str| { let s = show(&m); move || format!("{w} of {s}") };
            iter::forward(&|| g.iter(), &m, &what("iter"), c)?;
            iter::forward(&|| g.iter_pos(), &q.p.iter().copied().zip(m.iter().copied()).collect::<Vec<_>>(), &what("iter_pos"), c)?;
            iter::extremes(&|| g.iter(), &what("iter"), c)?;
            iter::extremes(&|| g.iter_t(), &what("iter_t"), c)?;
            iter::extremes(&|| g.iter_f(), &what("iter_f"), c)?;
            iter::forward(&|| g.iter_t(), &(0..n).filter(|j| m[*j]).map(|j| q.p[j]).collect::<Vec<P>>(), &what("iter_t"), c)?;
            iter::forward(&|| g.iter_f(), &(0..n).filter(|j| !m[*j]).map(|j| q.p[j]).collect::<Vec<P>>(), &what("iter_f"), c)
        },
    );
}

/// Bulk operations with sequences longer than the grid.
fn bulks<P: Pp, const W: usize>(k: &mut Check, name: &str) {
    let q = Sq::<P>::new();
    let n = q.n();
    let firsts: Vec<usize> = if n <= 40 { (0..n).collect() } else { [0, 1, 31, 32, n / 2, n - 33, n - 2, n - 1].into_iter().filter(|i| *i < n).collect() };
    let times = [0, 1, 2, n - 1, n, n + 1, W * 32 - 1, W * 32, W * 32 + 1, 2 * n, 64 * W + 3, 3 * n + 1000];
    let nf = firsts.len() as u64;
    k.fam(
        format!("long sequences for {name}"),
        format!("squares set and cleared in bulk, and through Extend-like loops of the set interface, by sequences that begin with one square ({nf} of them) repeated up to {} times (12 numbers of times) and go on with the other squares, the last one, its neighbours or all of them twice; sequences that know their length and that do not; from all true, all false and alternating", 3 * n + 1000),
        nf * times.len() as u64,
        move |i, c| {
            let (a, r) = (firsts[(i % nf) as usize], times[(i / nf) as usize]);
            let tails: [Vec<usize>; 4] = [(0..n).filter(|j| *j != a).collect(), vec![n - 1], [a.saturating_sub(1), (a + 1).min(n - 1), 0].to_vec(), (0..n).chain(0..n).rev().collect()];
            for (t, tail) in tails.iter().enumerate() {
                let list: Vec<P> = std::iter::repeat_n(a, r).chain(tail.iter().copied()).map(|j| q.p[j]).collect();
                for from in 0..3 {
                    for v in [false, true] {
                        for form in 0..4 {
                            let m0 = |j: usize| match from {
                                0 => false,
                                1 => true,
                                _ => j % 2 == 0,
                            };
                            let mut g: Gridbool<P, W> = (0..n).map(m0).collect();
                            let mut m: Vec<bool> = (0..n).map(m0).collect();
                            (r > 0).then(|| m[a] = v);
                            tail.iter().for_each(|j| m[*j] = v);
                            let mut it = list.iter().copied();
                            match (form, v) {
                                (0, true) => g.set_iter_t(list.iter().copied()),
                                (0, false) => g.set_iter_f(list.iter().copied()),
                                (1, true) => g.set_iter_t(std::iter::from_fn(|| it.next())),
                                (1, false) => g.set_iter_f(std::iter::from_fn(|| it.next())),
                                (2, true) => g.set_iter_t(list.clone().into_iter().filter(|_| true)),
                                (2, false) => g.set_iter_f(list.clone().into_iter().filter(|_| true)),
                                _ => list.iter().for_each(|p| SetPos::<P, W, 0>::set(&mut g, *p, v)),
                            }
                            c.state();
                            read_cells(&g, &m, &q, 0..n, c).map_err(|e| Viol::from(format!("{v} in bulk (form {form}), from pattern {from}, at square {a} {r} times, then tail {t}: {}", e.detail)))?;
                        }
                    }
                    let g: Gridbool<P, W> = list.iter().copied().collect();
                    let m: Vec<bool> = (0..n).map(|j| r > 0 && j == a || tail.contains(&j)).collect();
                    if from == 0 {
                        read_cells(&g, &m, &q, 0..n, c).map_err(|e| Viol::from(format!("collected from square {a} {r} times, then tail {t}: {}", e.detail)))?;
                    }
                }
            }
            c.outcome(&(a, r));
            Ok(())
        },
    );
}

fn dim<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    deviations::<Pos<X, Y>, W>(k, &format!("{}x{}", X as u32 + 1, Y as u32 + 1));
}

fn sdim<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    if S % 32 == 0 {
        deviations::<Pos<X, Y>, W>(k, &format!("{}x{}, spare word", X as u32 + 1, Y as u32 + 1));
    }
}

fn main() {
    let mut k = Check::new(
        "C13",
        "boolean grid contents read in every way and compared with a list of booleans",
        "writes applied to the real grid, and squares read by one path",
    );
    let deep = k.thorough();
    macro_rules! reachable {
        ($($x:literal $y:literal),+) => { $( {
            const S: usize = ($x + 1) * ($y + 1);
            reach::<Pos<$x, $y>, { (S + 31) / 32 }>(&mut k, &format!("{}x{}", $x + 1, $y + 1));
        } )+ }
    }
    reachable!(0 0, 1 0, 0 1, 2 0, 0 2, 1 1, 2 1, 1 2, 2 2, 7 0, 0 7, 3 1, 1 3, 4 1, 1 4, 8 0);
    if deep {
        reachable!(3 2, 2 3, 11 0, 0 11, 5 1, 1 5, 6 1, 4 2, 2 4);
    }
    histories::<Pos<1, 0>, 1>(&mut k, "2x1", if deep { 4 } else { 3 });
    histories::<Pos<0, 1>, 1>(&mut k, "1x2", if deep { 4 } else { 3 });
    histories::<Pos<1, 1>, 1>(&mut k, "2x2", if deep { 3 } else { 2 });
    histories::<Pos<2, 1>, 1>(&mut k, "3x2", if deep { 3 } else { 2 });
    if deep {
        histories::<Pos<6, 4>, 2>(&mut k, "7x5", 2);
    }
    dims_small!(each_dim, dim(&mut k));
    dims_mid!(each_dim, dim(&mut k));
    dims_mid!(each_sdim, sdim(&mut k));
    dims_large!(each_dim, dim(&mut k));
    deviations::<Mix53, 1>(&mut k, "Mix53");
    deviations::<Mix26, 1>(&mut k, "Mix26");
    deviations::<Sq44, 1>(&mut k, "Sq44");
    deviations::<Byte3, 24>(&mut k, "Byte3");
    deviations::<Three256, 24>(&mut k, "Three256");
    reach::<Sq44Half, 1>(&mut k, "user-defined 4x2");
    bulks::<Pos<0, 0>, 1>(&mut k, "1x1");
    bulks::<Pos<1, 0>, 1>(&mut k, "2x1");
    bulks::<Pos<1, 1>, 1>(&mut k, "2x2");
    bulks::<Pos<2, 1>, 1>(&mut k, "3x2");
    bulks::<Pos<1, 3>, 1>(&mut k, "2x4");
    bulks::<Pos<7, 3>, 1>(&mut k, "8x4");
    bulks::<Pos<10, 2>, 2>(&mut k, "11x3");
    bulks::<Pos<12, 9>, 5>(&mut k, "13x10");
    bulks::<Mix53, 1>(&mut k, "Mix53");
    bulks::<Byte3, 24>(&mut k, "Byte3");
    mixed::<Pos<0, 0>, 1>(&mut k, "1x1");
    mixed::<Pos<2, 1>, 1>(&mut k, "3x2");
    mixed::<Pos<1, 2>, 1>(&mut k, "2x3");
    mixed::<Pos<0, 6>, 1>(&mut k, "1x7");
    mixed::<Pos<7, 3>, 1>(&mut k, "8x4");
    mixed::<Pos<2, 10>, 2>(&mut k, "3x11");
    mixed::<Pos<64, 0>, 3>(&mut k, "65x1");
    k.assume("as_inner_mut is used only on the bits that stand for squares");
    k.run()
}

use mc::model::*;
mc::user_pos!(Sq44Half, BoundedU8<0, 3>, BoundedI16<0, 1>, 4, 2, both);
