//! Shared by the checks of boolean grids: all ways of reading and writing.
use crate::model::*;
use crate::*;
use sqrid::*;
use std::fmt::Debug;

pub trait Pp: PosT + Copy + PartialEq + Debug + Send + Sync + 'static {}
impl<P: PosT + Copy + PartialEq + Debug + Send + Sync + 'static> Pp for P {}

pub struct Sq<P> {
    pub p: Vec<P>,
    pub w: usize,
    pub h: usize,
}

impl<P: Pp> Sq<P> {
    pub fn new() -> Sq<P> {
        let (x0, x1, y0, y1) = bounds::<P>();
        assert!(x0 == 0 && y0 == 0);
        let p = (0..=y1).flat_map(|y| (0..=x1).map(move |x| mk::<P>(x, y))).collect();
        Sq { p, w: x1 as usize + 1, h: y1 as usize + 1 }
    }
    pub fn n(&self) -> usize {
        self.p.len()
    }
}

pub fn show(m: &[bool]) -> String {
    if m.len() <= 40 {
        m.iter().map(|b| if *b { '#' } else { '.' }).collect()
    } else {
        let t = m.iter().filter(|b| **b).count();
        let val = t * 2 < m.len();
        let v: Vec<usize> = (0..m.len()).filter(|i| m[*i] == val).collect();
        format!("{} squares, {val} at {:?}{}", m.len(), &v[..v.len().min(8)], if v.len() > 8 { "..." } else { "" })
    }
}

/// Squares one by one.
pub fn read_cells<P: Pp, const W: usize>(g: &Gridbool<P, W>, m: &[bool], q: &Sq<P>, which: impl Iterator<Item = usize>, c: &mut Ctx) -> Res {
    for i in which {
        let p = q.p[i];
        let r = [g.get(&p), g[p], g[&p], SetPos::<P, W, 0>::contains(g, &p)];
        if r != [m[i]; 4] {
            bad!("square {p:?}: get, index by value, by reference, contains give {r:?}, expected {}", m[i]);
        }
        c.steps += 4;
    }
    Ok(())
}

/// The whole grid by its iterators.
pub fn read_whole<P: Pp, const W: usize>(g: &Gridbool<P, W>, m: &[bool], q: &Sq<P>, c: &mut Ctx) -> Res {
    c.state();
    let n = m.len();
    let mut k = 0;
    for b in g.iter() {
        if k >= n || b != m[k] {
            bad!("iter item {k}: got {b}, expected {:?}", m.get(k));
        }
        k += 1;
    }
    same!(k, n, "number of items of iter");
    k = 0;
    for (p, b) in g.iter_pos() {
        if k >= n || b != m[k] || p != q.p[k] {
            bad!("iter_pos item {k}: got {p:?} {b}, expected {:?}", m.get(k));
        }
        k += 1;
    }
    same!(k, n, "number of items of iter_pos");
    for val in [true, false] {
        let mut want = (0..n).filter(|i| m[*i] == val);
        let mut it: Box<dyn Iterator<Item = P>> = if val { Box::new(g.iter_t()) } else { Box::new(g.iter_f()) };
        loop {
            match (it.next(), want.next()) {
                (None, None) => break,
                (Some(p), Some(i)) if p == q.p[i] => {}
                (got, want) => bad!("listing of the {val} squares: got {got:?}, expected {:?}", want.map(|i| q.p[i])),
            }
        }
        for _ in 0..2 {
            if let Some(p) = it.next() {
                bad!("listing of the {val} squares goes on after its end with {p:?}");
            }
        }
    }
    same!(g.into_inner(), *g.as_inner(), "into_inner");
    c.steps += 3 * n as u64;
    Ok(())
}

/// Ways of writing one square.
pub const WAYS: usize = 9;
pub fn write<P: Pp, const W: usize>(g: &mut Gridbool<P, W>, how: usize, p: P, v: bool) -> &'static str {
    match how {
        0 => {
            if v {
                g.set_t(&p)
            } else {
                g.set_f(&p)
            }
            "set_t/set_f"
        }
        1 => {
            g.set(&p, v);
            "set"
        }
        2 => {
            if v {
                SetPos::<P, W, 0>::insert(g, p)
            } else {
                SetPos::<P, W, 0>::remove(g, &p)
            }
            "SetPos::insert/remove"
        }
        3 => {
            SetPos::<P, W, 0>::set(g, p, v);
            "SetPos::set"
        }
        4 => {
            if v {
                g.set_iter_t(std::iter::once(p))
            } else {
                g.set_iter_f(std::iter::once(p))
            }
            "set_iter_t/f of one"
        }
        5 => {
            if v {
                g.set_iter_t([p, p, p].into_iter())
            } else {
                g.set_iter_f([p, p, p].into_iter())
            }
            "set_iter_t/f of one, three times"
        }
        6 => {
            g.set(&p, !v);
            g.set(&p, v);
            "set to the opposite, then set"
        }
        7 => {
            // Through the bitmap: the bit of a square is found by setting only that square
            let mut one = Gridbool::<P, W>::ALL_FALSE;
            one.set_t(&p);
            for (a, b) in g.as_inner_mut().iter_mut().zip(one.as_inner()) {
                if v {
                    *a |= b
                } else {
                    *a &= !b
                }
            }
            "as_inner_mut"
        }
        _ => {
            let c = *g;
            if v {
                g.set_iter_t(c.iter_t().chain([p]))
            } else {
                g.set_iter_f(c.iter_f().chain([p]))
            }
            "set_iter_t/f of the current ones and one more"
        }
    }
}
