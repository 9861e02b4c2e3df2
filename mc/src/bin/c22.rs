//! C22: a grid type whose storage does not match its dimensions cannot be used.
//!
//! The inputs of this property are programs: every case is a generated
//! program that the compiler has to accept or to refuse.
use mc::compiler::*;
use mc::*;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Grid,
    Bool,
}

/// All the ways of creating a grid (G), directly or inside a search.
const GRID: [(&str, &str); 19] = [
    ("repeat", "fn f() -> G { G::repeat(7) }"),
    ("default", "fn f() -> G { G::default() }"),
    ("default of strings", "fn f() -> sqrid::Grid<String, P, S> { Default::default() }"),
    ("collect values", "fn f() -> G { (0..S).map(|i| i as u8).collect::<G>() }"),
    ("collect references", "fn f() -> G { [1u8; 3].iter().collect::<G>() }"),
    ("try_from rows", "fn f() -> G { G::try_from(vec![vec![1u8]]).unwrap() }"),
    ("try_into of rows of strings", "fn f() -> sqrid::Grid<String, P, S> { vec![vec![String::new()]].try_into().unwrap() }"),
    ("MapPos::new", "fn f() -> G { <G as sqrid::MapPos<u8, P, W, S>>::new(7) }"),
    ("bfs_path", "fn f() -> usize { Q::bfs_path::<P, _, _>(go, &P::default(), |_| false).map(|r| r.1.len()).unwrap_or(0) }"),
    ("bfs_path_grid", "fn f() -> usize { Q::bfs_path_grid::<P, _, _>(go, &P::default(), |_| false).map(|r| r.1.len()).unwrap_or(0) }"),
    ("bf::search_mapmov", "fn f() -> sqrid::Grid<Option<sqrid::Dir>, P, S> { sqrid::bf::search_mapmov::<_, _, sqrid::Grid<Option<sqrid::Dir>, P, S>, std::collections::HashSet<P>, P, true, W, S>(go, &P::default(), |_| false).unwrap().1 }"),
    ("astar_path", "fn f() -> usize { Q::astar_path::<_, P>(go, &P::default(), &P::default()).map(|r| r.len()).unwrap_or(0) }"),
    ("astar_path_grid", "fn f() -> usize { Q::astar_path_grid::<_, P>(go, &P::default(), &P::default()).map(|r| r.len()).unwrap_or(0) }"),
    ("AstarIterator", "fn f() -> usize { sqrid::astar::AstarIterator::<_, sqrid::Grid<usize, P, S>, P, true, W, S>::new(go, &P::default(), &P::default()).count() }"),
    ("ucs_path", "fn f() -> usize { Q::ucs_path::<_, P>(pay, &P::default(), &P::default()).map(|r| r.len()).unwrap_or(0) }"),
    ("ucs_path_grid", "fn f() -> usize { Q::ucs_path_grid::<_, P>(pay, &P::default(), &P::default()).map(|r| r.len()).unwrap_or(0) }"),
    ("UcsIterator", "fn f() -> usize { sqrid::ucs::UcsIterator::<_, sqrid::Grid<usize, P, S>, P, true, W, S>::new(pay, &P::default()).count() }"),
    ("generic function", "fn make<X: Default>() -> X { X::default() } fn f() -> Vec<Option<G>> { vec![Some(make::<G>())] }"),
    ("function pointer", "fn f() -> fn(u8) -> G { G::repeat }"),
];

/// All the ways of creating a boolean grid (B).
const BOOL: [(&str, &str); 15] = [
    ("repeat(true)", "fn f() -> B { B::repeat(true) }"),
    ("repeat(false)", "fn f() -> B { B::repeat(false) }"),
    ("ALL_TRUE", "fn f() -> B { B::ALL_TRUE }"),
    ("ALL_FALSE", "fn f() -> B { B::ALL_FALSE }"),
    ("default", "fn f() -> B { B::default() }"),
    ("collect booleans", "fn f() -> B { (0..S).map(|i| i % 2 == 0).collect::<B>() }"),
    ("collect positions", "fn f() -> B { [P::default()].into_iter().collect::<B>() }"),
    ("constant", "const C: B = B::repeat(true); fn f() -> B { C }"),
    ("static", "static C: B = B::ALL_FALSE; fn f() -> &'static B { &C }"),
    ("bf_iter", "fn f() -> usize { Q::bf_iter::<P, _>(go, &P::default()).count() }"),
    ("bf_iter_grid", "fn f() -> usize { Q::bf_iter_grid::<P, _>(go, &P::default()).count() }"),
    ("bf::bf_iter", "fn f() -> usize { sqrid::bf::bf_iter::<_, B, P, true, W, S>(go, &P::default()).count() }"),
    ("bfs_path", "fn f() -> usize { Q::bfs_path::<P, _, _>(go, &P::default(), |_| false).map(|r| r.1.len()).unwrap_or(0) }"),
    ("bfs_path_grid", "fn f() -> usize { Q::bfs_path_grid::<P, _, _>(go, &P::default(), |_| false).map(|r| r.1.len()).unwrap_or(0) }"),
    ("generic function", "fn make<X: Default>() -> X { X::default() } fn f() -> Vec<Option<B>> { vec![Some(make::<B>())] }"),
];

/// A position type: text, width, height.
#[derive(Clone)]
struct Ty {
    text: String,
    w: u64,
    h: u64,
}

const USER: &str = "
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct User(sqrid::BoundedU8<0, 4>, sqrid::BoundedI32<0, 6>);
impl Default for User { fn default() -> User { User(sqrid::BoundedInt::MIN, sqrid::BoundedInt::MIN) } }
impl sqrid::PosT for User {
    type Xtype = sqrid::BoundedU8<0, 4>;
    type Ytype = sqrid::BoundedI32<0, 6>;
    const WIDTH: usize = 5;
    const HEIGHT: usize = 7;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self { User(xy.0, xy.1) }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) { (self.0, self.1) }
}
impl std::ops::Add<sqrid::Dir> for User {
    type Output = Result<User, sqrid::Error>;
    fn add(self, d: sqrid::Dir) -> Self::Output { let (x, y) = ((self.0, self.1) + d)?; Ok(User(x, y)) }
}
";

fn pos(x: u64, y: u64) -> Ty {
    Ty { text: format!("sqrid::Pos<{x}, {y}>"), w: x + 1, h: y + 1 }
}

fn program(ty: &Ty, way: &str, size: u64, words: u64) -> String {
    format!(
        "use sqrid::*;\ntype P = {};\nconst S: usize = {size};\nconst W: usize = {words};\ntype G = Grid<u8, P, {{ {size} }}>;\ntype B = Gridbool<P, {{ {words} }}>;\ntype Q = Sqrid<{}, {}, true, {{ {words} }}, {{ {size} }}>;\nfn go(p: P, d: Dir) -> Option<P> {{ (p + d).ok() }}\nfn pay(p: P, d: Dir) -> Option<(P, usize)> {{ Some(((p + d).ok()?, 1)) }}\n{}{way}\nfn main() {{ std::hint::black_box(f()); }}\n",
        ty.text,
        ty.w - 1,
        ty.h - 1,
        if ty.text == "User" { USER } else { "" }
    )
    .replace("use sqrid::*;", "use sqrid::{Grid, Gridbool, Sqrid, Dir};")
}

/// Wrong numbers of squares that a slip would produce, and the right one.
fn sizes(w: u64, h: u64) -> Vec<u64> {
    let n = w * h;
    let mut v = vec![n, n - 1, n + 1, 0, 1, w, h, (w - 1) * h, w * (h - 1), (w - 1) * (h - 1), (w + 1) * h, w * (h + 1), (w + 1) * (h + 1), 2 * n, n / 2, n + 32, n + 256, n + 65536, w * w, h * h, w + h];
    if n >= 65536 {
        v.push(n - 65536);
        v.push(n % 65536);
    }
    v.sort();
    v.dedup();
    v
}

/// The fewest words, and the most.
fn words(n: u64) -> (u64, u64) {
    (n.div_ceil(32), n / 32 + 1)
}

fn word_counts(n: u64) -> Vec<u64> {
    let (lo, hi) = words(n);
    let mut v = vec![0, 1, lo.saturating_sub(2), lo - 1, lo, hi, hi + 1, hi + 2, 2 * lo, n, n.div_ceil(64), n.div_ceil(8), n.div_ceil(16)];
    v.sort();
    v.dedup();
    v
}

#[derive(Clone)]
struct Case {
    ty: Ty,
    kind: Kind,
    way: usize,
    size: u64,
    words: u64,
}

impl Case {
    fn way(&self) -> (&'static str, &'static str) {
        match self.kind {
            Kind::Grid => GRID[self.way],
            Kind::Bool => BOOL[self.way],
        }
    }
    fn good(&self) -> bool {
        let n = self.ty.w * self.ty.h;
        match self.kind {
            Kind::Grid => self.size == n,
            Kind::Bool => words(n).0 <= self.words && self.words <= words(n).1,
        }
    }
    fn desc(&self) -> String {
        format!(
            "{} by {} with {} of {} for {}x{} squares",
            if self.kind == Kind::Grid { "grid" } else { "boolean grid" },
            self.way().0,
            if self.kind == Kind::Grid { "SIZE" } else { "WORDS" },
            if self.kind == Kind::Grid { self.size } else { self.words },
            self.ty.w,
            self.ty.h
        ) + &format!(" ({})", self.ty.text)
    }
}

/// Wrong parameters: one program each, as one error could hide another.
fn refused(k: &mut Check, name: &str, what: &str, cases: Vec<Case>) {
    let cases: Vec<Case> = cases.into_iter().filter(|c| !c.good()).collect();
    let lib = library();
    k.fam(format!("{name}: refused"), format!("{what}; every parameter that does not match has to be refused"), cases.len() as u64, move |i, c| {
        let case = &cases[i as usize];
        c.state();
        c.step();
        c.outcome(&case.size.wrapping_mul(1_000_003).wrapping_add(case.words));
        c.note(|| case.desc());
        if let Verdict::Accepted = compile(&lib, &program(&case.ty, case.way().1, case.size, case.words), false) {
            bad!("{} compiles", case.desc());
        }
        Ok(())
    });
}

/// Right parameters: many in one program, and by themselves only if that is refused.
fn accepted(k: &mut Check, name: &str, what: &str, cases: Vec<Case>, batch: usize) {
    let cases: Vec<Case> = cases.into_iter().filter(|c| c.good()).collect();
    let lib = library();
    let batches: Vec<Vec<Case>> = cases.chunks(batch).map(|c| c.to_vec()).collect();
    k.fam(format!("{name}: accepted"), format!("{what}; every parameter that matches has to be accepted ({batch} in one program)"), batches.len() as u64, move |i, c| {
        let b = &batches[i as usize];
        let mut text = String::new();
        let mut main = String::new();
        for (j, case) in b.iter().enumerate() {
            c.state();
            c.step();
            let p = program(&case.ty, case.way().1, case.size, case.words).replace("fn main()", "pub fn run()");
            text.push_str(&format!("mod m{j} {{\n{p}}}\n"));
            main.push_str(&format!("m{j}::run();\n"));
        }
        c.outcome(&b.len());
        c.note(|| b[0].desc());
        if let Verdict::Refused(e) = compile(&lib, &format!("{text}\nfn main() {{ {main} }}\n"), false) {
            for case in b {
                if let Verdict::Refused(e) = compile(&lib, &program(&case.ty, case.way().1, case.size, case.words), false) {
                    bad!("{} does not compile: {}", case.desc(), head(&e));
                }
            }
            bad!("{} and others in one program do not compile: {}", b[0].desc(), head(&e));
        }
        Ok(())
    });
}


fn cases(tys: &[Ty], kinds: &[(Kind, &[usize])]) -> Vec<Case> {
    let mut v = vec![];
    for ty in tys {
        let n = ty.w * ty.h;
        for (kind, ways) in kinds {
            for way in *ways {
                match kind {
                    // the number of words is right here, and the other way round
                    Kind::Grid => v.extend(sizes(ty.w, ty.h).into_iter().map(|size| Case { ty: ty.clone(), kind: *kind, way: *way, size, words: words(n).0 })),
                    Kind::Bool => v.extend(word_counts(n).into_iter().map(|words| Case { ty: ty.clone(), kind: *kind, way: *way, size: n, words })),
                }
            }
        }
    }
    v
}

/// Programs that use the macros, for many sizes each; they also run.
fn macros(k: &mut Check, name: &str, what: &str, dims: Vec<(u64, u64)>, batch: usize, search: bool) {
    let lib = library();
    let batches: Arc<Vec<Vec<(u64, u64)>>> = Arc::new(dims.chunks(batch).map(|c| c.to_vec()).collect());
    k.fam(name.to_string(), format!("{what}: types made by sqrid_create!, pos_create!, grid_create! and gridbool_create! from the numbers, and by sqrid_create! from the position type; the programs have to compile and run"), batches.len() as u64, move |i, c| {
        let b = &batches[i as usize];
        let text = |b: &[(u64, u64)]| {
            let mut text = String::from("fn main() {\n");
            for (x, y) in b {
                let n = (x + 1) * (y + 1);
                let (lo, hi) = words(n);
                let small = n <= 1 << 22;
                text.push_str(&format!(
                    "{{ type Q = sqrid::sqrid_create!({x}, {y}, {}); type P = sqrid::pos_create!(Q); type G = sqrid::grid_create!(Q, u8); type B = sqrid::gridbool_create!(Q); type Q2 = sqrid::sqrid_create!(P, {}); type G2 = sqrid::grid_create!(Q2, u16);\n",
                    (x + y) % 2 == 0,
                    (x + y) % 3 == 0
                ));
                text.push_str(&format!("assert_eq!((P::XMAX, P::YMAX, P::SIZE, G::SIZE, G2::SIZE), ({x}, {y}, {n}, {n}, {n}));\n"));
                text.push_str(&format!("assert_eq!(std::mem::size_of::<G>(), {n}); let w = std::mem::size_of::<B>() / 4; assert!({lo} <= w && w <= {hi}, \"{{}} words for {x},{y}\", w);\n"));
                if small {
                    text.push_str("let g = Box::new(G::repeat(3)); assert_eq!(g.iter().count(), G::SIZE); let t = Box::new(B::repeat(true)); assert!(t.iter().all(|x| x)); let d = Box::new(B::default()); assert!(d.iter_t().next().is_none()); let g2 = Box::new(G2::default()); assert_eq!(g2.iter().count(), G2::SIZE);\n");
                }
                if search {
                    text.push_str("assert!(Q::bfs_path(sqrid::pos_dir_add_ok, &P::FIRST, |p: P| p == P::LAST).is_ok()); assert!(Q2::bf_iter(sqrid::pos_dir_add_ok, &P::FIRST).flatten().count() == P::SIZE - 1); assert!(Q2::astar_path(sqrid::pos_dir_add_ok, &P::FIRST, &P::LAST).is_ok());\n");
                }
                text.push_str("}\n");
            }
            // large grids live on the stack for a moment
            text.replace("fn main() {", "fn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap().join().unwrap(); }\nfn body() {") + "}\n"
        };
        for d in b {
            c.state();
            c.step();
            c.outcome(d);
        }
        c.note(|| format!("{b:?}"));
        if let Verdict::Refused(e) = compile(&lib, &text(b), true) {
            for d in b {
                if let Verdict::Refused(e) = compile(&lib, &text(&[*d]), true) {
                    bad!("macros for {}x{} squares: {}", d.0 + 1, d.1 + 1, head(&e));
                }
            }
            bad!("macros for {b:?}: {}", head(&e));
        }
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("C22", "generated programs x parameters", "verdicts of the compiler, each compared with the rule");
    let deep = k.thorough();
    let every_grid: Vec<usize> = (0..GRID.len()).collect();
    let every_bool: Vec<usize> = (0..BOOL.len()).collect();
    let all: [(Kind, &[usize]); 2] = [(Kind::Grid, &every_grid), (Kind::Bool, &every_bool)];
    let main_ways: [(Kind, &[usize]); 2] = [(Kind::Grid, &[0, 5]), (Kind::Bool, &[0, 4])];
    let user = Ty { text: "User".into(), w: 5, h: 7 };
    let tup = Ty { text: "(u8, u8)".into(), w: 256, h: 256 };
    let few = vec![pos(4, 6), pos(7, 3)];
    let few_all = if deep { vec![pos(4, 6), pos(7, 3), pos(0, 0), pos(1, 0), pos(0, 2), pos(32, 0), pos(0, 62), pos(255, 255), user.clone(), tup.clone()] } else { few };
    let what = |t: &[Ty]| format!("position types {}", t.iter().map(|t| t.text.clone()).collect::<Vec<_>>().join(", "));
    let w = format!("{}; {} ways to create a grid and {} to create a boolean grid, directly or in a search; numbers of squares and of words near, below and above the right one, products of wrong extents, truncations", what(&few_all), GRID.len(), BOOL.len());
    refused(&mut k, "every way", &w, cases(&few_all, &all));
    accepted(&mut k, "every way", &w, cases(&few_all, &all), 16);
    let mut many: Vec<Ty> = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (30, 0), (31, 0), (32, 0), (0, 30), (0, 31), (0, 32), (62, 0), (0, 63), (64, 0), (7, 7), (15, 1), (2, 20), (94, 0), (95, 0), (255, 255), (65535, 0), (0, 65535), (65535, 1), (1, 65535), (255, 256), (299, 217)].iter().map(|(x, y)| pos(*x, *y)).collect();
    many.push(user);
    many.push(tup);
    if deep {
        many.extend((0..=9).flat_map(|x| (0..=9).map(move |y| pos(x, y))));
        many.extend((10..=40).map(|x| pos(x, 2)));
        let mut seen = std::collections::HashSet::new();
        many.retain(|t| seen.insert(t.text.clone()));
    }
    let w = format!("{}; grids by repeat and try_from, boolean grids by repeat and default; the same parameters", what(&many));
    refused(&mut k, "many types", &w, cases(&many, &main_ways));
    accepted(&mut k, "many types", &w, cases(&many, &main_ways), 16);
    // signed pairs have no grids, and none of one square either
    let signed: Vec<Ty> = ["(i8, i8)", "(i16, i16)"].iter().map(|t| Ty { text: t.to_string(), w: if *t == "(i8, i8)" { 256 } else { 65536 }, h: if *t == "(i8, i8)" { 256 } else { 65536 } }).collect();
    let some: Vec<Case> = signed.iter().flat_map(|t| [0, 1, 127, 128 * 128, 255 * 255, 65535, 127 * 127].map(|size| Case { ty: t.clone(), kind: Kind::Grid, way: 0, size, words: 1 })).collect();
    refused(&mut k, "signed pairs", "grids of (i8, i8) and (i16, i16) by repeat, with numbers of squares that are too small", some);
    // a search for positions of another size
    let lib = library();
    let others: Vec<(u64, u64, u64, u64)> = [(1, 1, 2, 1), (3, 3, 3, 2), (2, 2, 2, 3), (0, 0, 65535, 0), (4, 4, 0, 0), (7, 3, 7, 7)].to_vec();
    let searches = [8usize, 9, 11, 12, 14, 15];
    k.fam("another size", "searches of a Sqrid of one size for positions of a grid with another number of squares have to be refused; 6 pairs of sizes, 6 searches", (others.len() * searches.len()) as u64, move |i, c| {
        let (x, y, px, py) = others[i as usize % others.len()];
        let way = GRID[searches[i as usize / others.len()]];
        let n = (x + 1) * (y + 1);
        let text = program(&pos(x, y), way.1, n, n / 32 + 1).replace(&format!("type P = sqrid::Pos<{x}, {y}>;"), &format!("type P = sqrid::Pos<{px}, {py}>;"));
        c.state();
        c.step();
        c.outcome(&(x, y, px, py));
        if let Verdict::Accepted = compile(&lib, &text, false) {
            bad!("{} of Sqrid<{x}, {y}, ..> compiles for positions of type Pos<{px}, {py}>", way.0);
        }
        Ok(())
    });
    let top = if deep { 48 } else { 15 };
    macros(&mut k, "macros, small sizes", &format!("every size from 1x1 to {}x{}", top + 1, top + 1), (0..=top).flat_map(|x| (0..=top).map(move |y| (x, y))).collect(), 16, false);
    macros(&mut k, "macros, lines", "lines and columns around the word limits", (16..=if deep { 300 } else { 100 }).flat_map(|x| [(x, 0), (0, x)]).filter(|(x, y)| deep || (x + y + 1) % 32 <= 1 || (x + y + 1) % 32 == 31).collect(), 16, false);
    macros(&mut k, "macros, large sizes", "large sizes", vec![(255, 255), (254, 256), (65535, 0), (0, 65535), (65534, 0), (65535, 1), (1, 65535), (299, 217), (1023, 1023), (256, 255), (65535, 31), (4095, 4095), (65535, 65534), (65534, 65535), (32767, 65535), (65535, 65535)], 1, false);
    macros(&mut k, "macros, searches", "searches in types made by the macros", vec![(0, 0), (1, 0), (0, 1), (1, 1), (2, 3), (7, 3), (3, 7), (30, 0), (0, 31), (32, 0), (15, 15), (16, 15), (99, 9), (63, 31)], 2, true);
    k.assume("the compiler installed here, whose verdicts are taken as they are");
    k.run()
}
