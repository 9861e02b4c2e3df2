//! C31: no use of a grid from safe code reaches memory outside it.
use mc::model::*;
use mc::*;
use sqrid::boundedint::*;
use sqrid::*;
use std::fmt::Debug;
use std::hint::black_box;

/// A grid between two fences.
#[repr(C)]
struct Fenced<G> {
    before: [u64; FENCE],
    g: G,
    after: [u64; FENCE],
}

const FENCE: usize = 1024;
/// What lies next to the grid must make no difference.
const PAINTS: [u64; 2] = [0, !0];

impl<G> Fenced<G> {
    fn new(paint: u64, g: G) -> Box<Self> {
        let mut b = Box::new(Fenced { before: [paint; FENCE], g, after: [paint; FENCE] });
        black_box(&mut *b);
        b
    }

    fn intact(&mut self, paint: u64) -> bool {
        let f = black_box(self);
        f.before.iter().chain(&f.after).all(|x| *x == paint)
    }

    /// Whether the memory from `p` on, `n` bytes, belongs to the grid.
    fn owns(&self, p: usize, n: usize) -> bool {
        let (start, size) = (&self.g as *const G as usize, std::mem::size_of::<G>());
        p >= start && p - start <= size && n <= size - (p - start)
    }
}

trait Any: PosT + Ord + std::hash::Hash + Debug + Send + Sync + 'static {}
impl<P: PosT + Ord + std::hash::Hash + Debug + Send + Sync + 'static> Any for P {}

// Types that declare fewer squares than their coordinates reach:
user_pos!(Lie22, BoundedU8<0, 9>, BoundedU8<0, 9>, 2, 2, both);
user_pos!(LieTall, BoundedU16<0, 2>, u8, 3, 4, tuple);
user_pos!(LieWide, u8, BoundedU16<0, 2>, 5, 3, both);
user_pos!(LieOne, u8, u8, 1, 1, both);
user_pos!(LieNone, BoundedU8<0, 3>, BoundedU8<0, 3>, 0, 4, tuple);
user_pos!(LieSwap, BoundedU8<0, 4>, BoundedU8<0, 2>, 3, 5, both);
user_pos!(LieMuch, BoundedU8<0, 1>, BoundedU8<0, 1>, 40, 3, both);
user_pos!(LieFar, u32, u32, 4, 4, both);
user_pos!(LieWrap, u64, u64, 3, 3, tuple);
user_pos!(LieOff, BoundedI16<-5, 90>, BoundedI16<-5, 90>, 6, 6, both);

/// A type that computes its own index, and gets it wrong.
macro_rules! own {
    ($name:ident, $w:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        struct $name(usize);
        impl PosT for $name {
            type Xtype = BoundedU8<0, 3>;
            type Ytype = BoundedU8<0, 2>;
            const WIDTH: usize = 4;
            const HEIGHT: usize = 3;
            fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
                $name(xy.0.into_inner() as usize + 4 * xy.1.into_inner() as usize)
            }
            fn x(&self) -> Self::Xtype {
                BoundedU8::new_unwrap((self.0 % 4) as u8)
            }
            fn y(&self) -> Self::Ytype {
                BoundedU8::new_unwrap((self.0 / 4 % 3) as u8)
            }
            fn to_usize(&self) -> usize {
                self.0
            }
            fn width() -> usize {
                $w
            }
        }
    };
}
own!(Own4, 4);
own!(Own9, 9);
own!(Own1, 1);
own!(OwnMax, usize::MAX);
own!(Own0, 0);

/// Indices of every kind.
fn indices() -> Vec<usize> {
    let mut v: Vec<usize> = (0..700).collect();
    for k in 10..64 {
        for d in 0..24 {
            v.push((1usize << k) + d);
            v.push((1usize << k) - d - 1);
        }
    }
    v.extend((0..300).map(|d| usize::MAX - d));
    v.sort();
    v.dedup();
    v
}

/// Every square of a type, or those near its corners, borders and declared size.
fn squares<P: Any>() -> Vec<P> {
    let (x0, x1, y0, y1) = bounds::<P>();
    let near = |a: i128, b: i128, size: usize| -> Vec<i128> {
        if b - a < 256 {
            return (a..=b).collect();
        }
        let mut v: Vec<i128> = (0..8).flat_map(|d| [a + d, b - d, a + size as i128 - 2 + d, (a + b) / 2 + d]).collect();
        v.extend((3..62).flat_map(|k| [(1i128 << k) - 1, 1i128 << k]));
        v.retain(|x| (a..=b).contains(x));
        v.sort();
        v.dedup();
        v
    };
    let xs = near(x0, x1, P::WIDTH);
    near(y0, y1, P::HEIGHT).into_iter().flat_map(|y| xs.iter().map(move |x| mk(*x, y)).collect::<Vec<P>>()).collect()
}

type Cells<P, const S: usize> = Grid<u32, P, S>;
/// Where a reading path leads: address and number of bytes.
type Reads<P, const S: usize> = [(&'static str, fn(&mut Cells<P, S>, P) -> (usize, usize)); 11];
type Writes<P, const S: usize> = [(&'static str, fn(&mut Cells<P, S>, P)); 6];

fn at<T>(t: &T) -> (usize, usize) {
    (t as *const T as usize, std::mem::size_of::<T>())
}

fn of<T>(t: &[T]) -> (usize, usize) {
    (t.as_ptr() as usize, std::mem::size_of_val(t))
}

fn reads<P: Any, const S: usize>() -> Reads<P, S> {
    [
        ("get", |g, p| at(g.get(&p))),
        ("get_mut", |g, p| at(g.get_mut(&p))),
        ("index", |g, p| at(&g[p])),
        ("index by reference", |g, p| at(&g[&p])),
        ("mutable index", |g, p| at(&mut g[p])),
        ("mutable index by reference", |g, p| at(&mut g[&p])),
        ("map interface", |g, p| at(MapPos::<u32, P, 0, S>::get(g, &p))),
        ("line", |g, p| of(g.line(p.y()))),
        ("line_mut", |g, p| of(g.line_mut(p.y()))),
        ("iter_pos", |g, p| g.iter_pos().find(|(q, _)| *q == p).map_or(at(g), |(_, t)| at(t))),
        ("as_ref", |g, _| of(g.as_ref())),
    ]
}

fn writes<P: Any, const S: usize>() -> Writes<P, S> {
    [
        ("assigning", |g, p| g[p] = 7),
        ("assigning by reference", |g, p| g[&p] = 7),
        ("map interface", |g, p| MapPos::<u32, P, 0, S>::set(g, p, 7)),
        ("extend", |g, p| g.extend([(p, 7)])),
        ("extend by reference", |g, p| g.extend([(p, 6), (p, 7)])),
        ("line_mut", |g, p| g.line_mut(p.y()).fill(7)),
    ]
}

/// One square, all access paths of a grid of items.
fn item<P: Any, const S: usize>(p: P, sound: bool, c: &mut Ctx) -> Res {
    c.state();
    for paint in PAINTS {
        let mut f = Fenced::new(paint, Cells::<P, S>::repeat(5));
        for (name, path) in reads::<P, S>() {
            // In a huge grid the square is looked for only near its beginning
            if name == "iter_pos" && S > 4096 {
                continue;
            }
            c.step();
            match caught(|| path(&mut f.g, p)) {
                Ok((start, n)) if f.owns(start, n) => {}
                Ok((start, n)) => bad!("{name} of {p:?}: {n} bytes at {} bytes from the start of the grid of {S} cells", start as i128 - &f.g as *const _ as i128),
                Err(e) if sound => bad!("{name} of {p:?}: panic: {e}"),
                Err(_) => {}
            }
        }
        for (name, path) in writes::<P, S>() {
            c.step();
            let r = caught(|| path(&mut f.g, p));
            if !f.intact(paint) {
                bad!("{name} of {p:?} changes memory outside the grid of {S} cells");
            }
            if let (Err(e), true) = (r, sound) {
                bad!("{name} of {p:?}: panic: {e}");
            }
        }
    }
    Ok(())
}

type Bits<P, const W: usize> = Gridbool<P, W>;

/// One square, all access paths of a boolean grid.
fn bit<P: Any, const W: usize, const S: usize>(p: P, sound: bool, c: &mut Ctx) -> Res {
    type Read<P, const W: usize> = fn(&mut Bits<P, W>, P) -> bool;
    type Write<P, const W: usize> = fn(&mut Bits<P, W>, P);
    let reads: [(&str, Read<P, W>); 6] = [
        ("get", |g, p| g.get(&p)),
        ("index", |g, p| g[p]),
        ("index by reference", |g, p| g[&p]),
        ("set interface", |g, p| SetPos::<P, W, 0>::contains(g, &p)),
        ("iter_pos", |g, p| g.iter_pos().find(|(q, _)| *q == p).is_some_and(|(_, b)| b)),
        ("iter_t", |g, p| g.iter_t().any(|q| q == p)),
    ];
    let writes: [(&str, Write<P, W>); 9] = [
        ("set_t", |g, p| g.set_t(&p)),
        ("set_f", |g, p| g.set_f(&p)),
        ("set true", |g, p| g.set(&p, true)),
        ("set false", |g, p| g.set(&p, false)),
        ("set_iter_t", |g, p| g.set_iter_t([p, p].into_iter())),
        ("set_iter_f", |g, p| g.set_iter_f([p, p].into_iter())),
        ("insert", |g, p| SetPos::<P, W, 0>::insert(g, p)),
        ("remove", |g, p| SetPos::<P, W, 0>::remove(g, &p)),
        ("set interface", |g, p| SetPos::<P, W, 0>::set(g, p, true)),
    ];
    c.state();
    for fill in [false, true] {
        let mut fs = PAINTS.map(|paint| Fenced::new(paint, Bits::<P, W>::repeat(fill)));
        for (name, path) in reads {
            if name.starts_with("iter") && S > 4096 {
                continue;
            }
            c.step();
            let got: Vec<_> = fs.iter_mut().map(|f| caught(|| path(&mut black_box(f).g, p)).ok()).collect();
            if got[0] != got[1] {
                bad!("{name} of {p:?} in {W} words: depends on what lies next to the grid");
            }
            if sound && got[0].is_none() {
                bad!("{name} of {p:?}: panic");
            }
        }
        for (name, path) in writes {
            for (f, paint) in fs.iter_mut().zip(PAINTS) {
                c.step();
                let r = caught(|| path(&mut f.g, p));
                if !f.intact(paint) {
                    bad!("{name} of {p:?} in {W} words changes memory outside the grid");
                }
                if let (Err(e), true) = (r, sound) {
                    bad!("{name} of {p:?}: panic: {e}");
                }
            }
        }
    }
    Ok(())
}

/// Nested rows of `h` rows of `w` items.
fn rows(w: usize, h: usize) -> Vec<Vec<u32>> {
    (0..h).map(|y| (0..w).map(|x| (x * 31 + y) as u32).collect()).collect()
}

const WHOLE: usize = 18;
/// Operations on whole grids.
fn whole<P: Any, const W: usize, const S: usize>(i: usize, sound: bool, c: &mut Ctx) -> Res {
    let (x0, x1, y0, y1) = bounds::<P>();
    if (i == 3 || i == 10) && (x1 - x0).max(y1 - y0) > 1 << 16 {
        // Printing draws up labels for all columns; and the list of a column has no end
        return Ok(());
    }
    let text = |f: &mut Box<Fenced<Cells<P, S>>>| -> String {
        let g = &mut black_box(f).g;
        match i {
            0 => g.flip_h(),
            1 => g.flip_v(),
            2 => return format!("{:?}", g.iter_pos().map(|(p, t)| (p, *t)).collect::<Vec<_>>()),
            3 => return g.to_string(),
            4 => return format!("{:?}", g.clone().into_iter().collect::<Vec<_>>()),
            5 => return format!("{:?}", g.iter_mut().map(|x| *x).collect::<Vec<_>>()),
            6..=8 => {
                let (w, h) = [(P::WIDTH, P::HEIGHT), (P::WIDTH + 1, P::HEIGHT), (200, 2)][i - 6];
                let r = g.extend_from_vecvec(rows(w.min(300), h.min(300)));
                return format!("{r:?} {:?}", g.as_array());
            }
            9..=11 => {
                let (w, h) = [(P::WIDTH, P::HEIGHT), (1, 1), (P::WIDTH, P::HEIGHT + 1)][i - 9];
                return format!("{:?}", Cells::<P, S>::try_from(rows(w.min(300), h.min(300))));
            }
            12 => *g = Cells::default(),
            13 => *g = (0..S as u32).collect(),
            14 => *g = std::iter::repeat_n(3, S).collect::<Vec<u32>>().iter().collect(),
            _ => {}
        }
        format!("{:?}", g.as_array())
    };
    let bools = |f: &mut Box<Fenced<Bits<P, W>>>| -> String {
        let g = &mut black_box(f).g;
        match i {
            0 => g.flip_h(),
            1 => g.flip_v(),
            2 => return format!("{:?}", g.iter_pos().collect::<Vec<_>>()),
            3 => return g.to_string(),
            4 => return format!("{:?}", g.iter_t().collect::<Vec<_>>()),
            5 => return format!("{:?}", g.iter_f().collect::<Vec<_>>()),
            6 => return format!("{:?}", g.iter().collect::<Vec<_>>()),
            7 => g.set_iter_t(P::iter()),
            8 => g.set_iter_f(P::iter()),
            9 => *g = (0..S).map(|j| j % 3 == 0).collect(),
            10 => g.set_iter_t(P::iter_vertical()),
            _ => {}
        }
        format!("{:?}", g)
    };
    c.state();
    c.step();
    let mut got = vec![];
    for paint in PAINTS {
        let mut f = Fenced::new(paint, (0..S as u32).collect::<Cells<P, S>>());
        let a = caught(|| text(&mut f)).ok();
        if !f.intact(paint) {
            bad!("operation {i} changes memory outside the grid of {S} cells");
        }
        let mut f = Fenced::new(paint, Bits::<P, W>::repeat(i % 2 == 0));
        let b = caught(|| bools(&mut f)).ok();
        if !f.intact(paint) {
            bad!("operation {i} changes memory outside the boolean grid of {W} words");
        }
        if sound && (a.is_none() || b.is_none()) {
            bad!("operation {i}: panic");
        }
        got.push((a, b));
    }
    if got[0] != got[1] {
        bad!("the result of operation {i} depends on what lies next to the grid");
    }
    Ok(())
}

/// Searches that keep their marks in grids, over steps that lead anywhere.
fn searches<P: Any, const W: usize, const S: usize>(p: P, to: &[P], c: &mut Ctx) -> Res {
    c.state();
    for step in [1, 7, 31] {
        // From every square to others of the list
        let index = |q: P| to.iter().position(|x| *x == q).unwrap_or(0);
        let go = |q: P, d: Dir| to.get((index(q) * 3 + d as usize + step) % to.len()).copied();
        c.add(0, 5);
        let n = to.len() + 1;
        let dest = to[to.len() / 2];
        let _ = caught(|| bf::bf_iter_grid::<_, P, true, W, S>(go, &p).take(n).flatten().count());
        let _ = caught(|| bf::search_mapmov::<_, _, Grid<Option<Dir>, P, S>, Gridbool<P, W>, P, true, W, S>(go, &p, |q| q == dest).map(|(q, m)| (q, m.iter().flatten().count())));
        let _ = caught(|| astar::AstarIterator::<_, Grid<usize, P, S>, P, true, W, S>::new(go, &p, &dest).take(n).count());
        let _ = caught(|| ucs::UcsIterator::<_, Grid<usize, P, S>, P, true, W, S>::new(|q, d| go(q, d).map(|q| (q, 1 + step)), &p).take(n).count());
        let m = Grid::<Option<Dir>, P, S>::repeat(Some(Dir::E));
        let _ = caught(|| MapPos::<Option<Dir>, P, W, S>::get(&m, &p).is_some());
    }
    Ok(())
}

/// An iterator that promises what it does not keep.
struct Liar<I> {
    items: I,
    hint: (usize, Option<usize>),
}

impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

impl<I: DoubleEndedIterator> DoubleEndedIterator for Liar<I> {
    fn next_back(&mut self) -> Option<I::Item> {
        self.items.next_back()
    }
}

impl<I: Iterator> ExactSizeIterator for Liar<I> {
    fn len(&self) -> usize {
        self.hint.0
    }
}

/// Grids made from and extended by iterators of any length that promise another one.
fn liars<P: Any, const W: usize, const S: usize>(len: usize, c: &mut Ctx) -> Res {
    let hints = [0, 1, len, S.saturating_sub(1), S, S + 1, 2 * S, 32 * W, 1 << 63, usize::MAX];
    for low in hints {
        for high in hints.iter().map(|h| Some(*h)).chain([None]) {
            c.state();
            c.add(0, 5);
            let lie = |n: usize| Liar { items: 0..n, hint: (low, high) };
            let say = || format!("{len} items announced as {:?}", (low, high));
            let same_items = |g: &Cells<P, S>| g.iter().copied().eq(0..S as u32);
            match caught(|| lie(len).map(|i| i as u32).collect::<Cells<P, S>>()) {
                Ok(g) if len != S || !same_items(&g) => bad!("grid of {S} cells made of {}: {:?}", say(), g.as_array()),
                _ => {}
            }
            let numbers: Vec<u32> = (0..len as u32).collect();
            match caught(|| Liar { items: numbers.iter(), hint: (low, high) }.collect::<Cells<P, S>>()) {
                Ok(g) if len != S || !same_items(&g) => bad!("grid of {S} cells made of references to {}: {:?}", say(), g.as_array()),
                _ => {}
            }
            match caught(|| lie(len).map(|i| i % 3 == 0).collect::<Bits<P, W>>()) {
                Ok(g) if len != P::WIDTH * P::HEIGHT || !g.iter().eq((0..len).map(|i| i % 3 == 0)) => bad!("boolean grid of {W} words made of {}: {g:?}", say()),
                _ => {}
            }
            for paint in PAINTS {
                let mut f = Fenced::new(paint, Cells::<P, S>::repeat(5));
                let _ = caught(|| f.g.extend(lie(len).map(|i| (P::tryfrom_usize(i % S).unwrap(), i as u32))));
                let ok = f.intact(paint);
                let mut f = Fenced::new(paint, Bits::<P, W>::repeat(false));
                let _ = caught(|| f.g.set_iter_t(lie(len).map(|i| P::tryfrom_usize(i % S).unwrap())));
                if !ok || !f.intact(paint) {
                    bad!("extending by {} changes memory outside the grid", say());
                }
            }
        }
    }
    Ok(())
}

const CHUNK: usize = 16;

fn all<P: Any, const W: usize, const S: usize>(k: &mut Check, name: &'static str, what: &str, sound: bool, list: Vec<P>) {
    let list: &'static [P] = list.leak();
    k.fam(format!("{name}: access to one square"), format!("grids of {S} cells, boolean grids of {W} words, positions of type {name} ({what}); {} positions, every access path, two paintings of the memory around the grid", list.len()), list.len().div_ceil(CHUNK) as u64, move |i, c| {
        c.outcome(&i);
        for p in list.iter().skip(i as usize * CHUNK).take(CHUNK) {
            item::<P, S>(*p, sound, c)?;
            bit::<P, W, S>(*p, sound, c)?;
        }
        Ok(())
    });
    k.fam(format!("{name}: whole grids"), format!("positions of type {name} ({what}): flips, rows, lists, printing, bulk operations"), WHOLE as u64, move |i, c| {
        c.outcome(&i);
        whole::<P, W, S>(i as usize, sound, c)
    });
    let some: &'static [P] = &list[..list.len().min(400)];
    k.fam(format!("{name}: searches"), format!("positions of type {name} ({what}): searches that mark squares in grids, with movement functions that lead to any of {} squares, from each", some.len()), some.len() as u64, move |i, c| {
        c.outcome(&i);
        searches::<P, W, S>(some[i as usize], some, c)
    });
}

fn pos<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    let name: &'static str = format!("Pos<{X},{Y}>").leak();
    all::<Pos<X, Y>, W, S>(k, name, "starts at zero", true, squares());
    k.fam(format!("{name}: iterators that lie"), "sequences of 0 to twice as many items as squares (at most 140), announced by any of 10 lower and 11 upper bounds", (2 * S as u64 + 1).min(140), move |i, c| {
        c.outcome(&i);
        liars::<Pos<X, Y>, W, S>(i as usize, c)
    });
}

fn main() {
    let mut k = Check::new("C31", "positions and operations tried", "accesses watched");
    const SOUND: &str = "starts at zero";
    const OFF: &str = "does not start at zero";
    const LIE: &str = "declares other dimensions than its coordinates have";
    const OWN: &str = "computes its own index or width";
    each_dim! { pos(&mut k); (0, 0) (1, 0) (0, 1) (2, 2) (30, 0) (31, 0) (32, 0) (0, 31) (7, 3) (7, 4) (8, 3) (15, 15) (63, 0) (64, 0) (12, 20) (3, 299) }
    all::<Mix53, 1, 15>(&mut k, "Mix53", SOUND, true, squares());
    all::<Mix26, 1, 12>(&mut k, "Mix26", SOUND, true, squares());
    all::<Byte3, 24, 768>(&mut k, "Byte3", SOUND, true, squares());
    all::<Sq44, 1, 16>(&mut k, "Sq44", SOUND, true, squares());
    all::<Off1, 2, 35>(&mut k, "Off1", OFF, false, squares());
    all::<Off2, 1, 6>(&mut k, "Off2", OFF, false, squares());
    all::<Off3, 1, 30>(&mut k, "Off3", OFF, false, squares());
    all::<Off4, 1, 16>(&mut k, "Off4", OFF, false, squares());
    all::<OneCol, 1, 3>(&mut k, "OneCol", OFF, false, squares());
    all::<OneSq, 1, 1>(&mut k, "OneSq", OFF, false, squares());
    all::<Lie22, 1, 4>(&mut k, "Lie22", LIE, false, squares());
    all::<LieTall, 1, 12>(&mut k, "LieTall", LIE, false, squares());
    all::<LieWide, 1, 15>(&mut k, "LieWide", LIE, false, squares());
    all::<LieOne, 1, 1>(&mut k, "LieOne", LIE, false, squares());
    all::<LieNone, 1, 0>(&mut k, "LieNone", LIE, false, squares());
    all::<LieSwap, 1, 15>(&mut k, "LieSwap", LIE, false, squares());
    all::<LieMuch, 4, 120>(&mut k, "LieMuch", LIE, false, squares());
    all::<LieFar, 1, 16>(&mut k, "LieFar", LIE, false, squares());
    all::<LieWrap, 1, 9>(&mut k, "LieWrap", LIE, false, squares());
    all::<LieOff, 2, 36>(&mut k, "LieOff", LIE, false, squares());
    all::<Own4, 1, 12>(&mut k, "Own4", OWN, false, indices().into_iter().map(Own4).collect());
    all::<Own9, 1, 12>(&mut k, "Own9", OWN, false, indices().into_iter().map(Own9).collect());
    all::<Own1, 1, 12>(&mut k, "Own1", OWN, false, indices().into_iter().map(Own1).collect());
    all::<Own0, 1, 12>(&mut k, "Own0", OWN, false, indices().into_iter().map(Own0).collect());
    all::<OwnMax, 1, 12>(&mut k, "OwnMax", OWN, false, indices().into_iter().map(OwnMax).collect());
    if k.thorough() {
        all::<(u8, u8), 2048, 65536>(&mut k, "(u8,u8)", SOUND, true, squares());
        all::<(i8, i8), 2048, 65536>(&mut k, "(i8,i8)", OFF, false, squares());
    }
    k.assume("what the compiler makes of the checked program; the fences around a grid are 8 KiB wide, farther accesses are noticed by their address or as crashes");
    k.run()
}
