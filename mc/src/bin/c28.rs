//! C28: what is made at compile time is what would be made at run time.
//!
//! The inputs of this property are programs: every case is a generated
//! program that the compiler has to accept or to refuse; accepted ones run
//! and compare the constants with what is computed at run time.
use mc::compiler::*;
use mc::*;

const POS_WAYS: [(&str, &str); 6] = [
    ("constant by new_static", "const C: P = P::new_static::<{x}, {y}>(); fn f() -> P { C }"),
    ("static by new_static", "static C: P = P::new_static::<{x}, {y}>(); fn f() -> P { C }"),
    ("new_static in a function", "fn f() -> P { P::new_static::<{x}, {y}>() }"),
    ("new_static in a generic function", "fn g<const A: u16, const B: u16>() -> P { P::new_static::<A, B>() } fn f() -> P { g::<{x}, {y}>() }"),
    ("constant by new_unwrap", "const C: P = P::new_unwrap({x}, {y}); fn f() -> P { C }"),
    ("constant by matching new", "const C: P = match P::new({x}, {y}) { Ok(p) => p, Err(_) => panic!() }; fn f() -> P { C }"),
];

const INT_WAYS: [(&str, &str); 6] = [
    ("constant by new_static", "const C: B = B::new_static::<{v}>(); fn f() -> B { C }"),
    ("static by new_static", "static C: B = B::new_static::<{v}>(); fn f() -> B { C }"),
    ("new_static in a function", "fn f() -> B { B::new_static::<{v}>() }"),
    ("new_static in a generic function", "fn g<const A: {t}>() -> B { B::new_static::<A>() } fn f() -> B { g::<{v}>() }"),
    ("constant by new_unwrap", "const C: B = B::new_unwrap({v}); fn f() -> B { C }"),
    ("constant by matching new", "const C: B = match B::new({v}) { Ok(p) => p, Err(_) => panic!() }; fn f() -> B { C }"),
];

/// A constant to make.
#[derive(Clone)]
struct Case {
    desc: String,
    /// Items with a function f that gives the constant
    items: String,
    /// Has to hold of f()
    test: String,
    good: bool,
}

fn program(c: &Case) -> String {
    format!("use sqrid::*;\n{}\npub fn run() {{ let p = std::hint::black_box(f()); assert!({}, \"{{p:?}}\"); }}\n", c.items, c.test)
}

fn pos(x: u32, y: u32, cx: u32, cy: u32, way: usize) -> Case {
    let (name, text) = POS_WAYS[way];
    Case {
        desc: format!("Pos<{x}, {y}> at ({cx},{cy}), {name}"),
        items: format!("type P = Pos<{x}, {y}>;\n{}", text.replace("{x}", &cx.to_string()).replace("{y}", &cy.to_string())),
        test: format!("(p.x(), p.y()) == ({cx}, {cy}) && p == P::new({cx}, {cy}).unwrap()"),
        good: cx <= x && cy <= y,
    }
}

fn int(ty: &str, prim: &str, lo: &str, hi: &str, v: &str, good: bool, way: usize) -> Case {
    let (name, text) = INT_WAYS[way];
    Case {
        desc: format!("{ty}<{lo}, {hi}> of {v}, {name}"),
        items: format!("type B = {ty}<{{ {lo} }}, {{ {hi} }}>;\n{}", text.replace("{v}", &if text.contains("<{v}>") && !v.starts_with('-') { v.to_string() } else if text.contains("<{v}>") { format!("{{ {v} }}") } else { v.to_string() }).replace("{t}", prim)),
        test: format!("p.into_inner() == {v} && p == B::new({v}).unwrap()"),
        good,
    }
}

/// Numbers around the limits of a coordinate.
fn near(m: u32) -> Vec<u32> {
    let mut v: Vec<i64> = vec![0, 1, m as i64 - 1, m as i64, m as i64 + 1, m as i64 + 2, 2 * m as i64 + 1, m as i64 + 256, m as i64 + 32768, 65535];
    v.retain(|v| (0..=65535).contains(v));
    v.sort();
    v.dedup();
    v.into_iter().map(|v| v as u32).collect()
}

fn judge(k: &mut Check, name: &str, what: &str, cases: Vec<Case>) {
    let (good, wrong): (Vec<Case>, Vec<Case>) = cases.into_iter().partition(|c| c.good);
    let lib = library();
    k.fam(format!("{name}: refused"), format!("{what}; outside the bounds, one program each"), wrong.len() as u64, move |i, c| {
        let case = &wrong[i as usize];
        c.state();
        c.step();
        c.outcome(&i);
        c.note(|| case.desc.clone());
        // the test is left out: comparing with what run time refuses would be no use
        let text = format!("use sqrid::*;\n{}\nfn main() {{ std::hint::black_box(f()); }}\n", case.items);
        if let Verdict::Accepted = compile(&lib, &text, false) {
            bad!("{} compiles", case.desc);
        }
        Ok(())
    });
    let lib = library();
    let batches: Vec<Vec<Case>> = good.chunks(48).map(|c| c.to_vec()).collect();
    k.fam(format!("{name}: accepted"), format!("{what}; within the bounds, up to 48 in one program, which has to run and find the same values as at run time"), batches.len() as u64, move |i, c| {
        let b = &batches[i as usize];
        let mut text = String::new();
        let mut main = String::new();
        for (j, case) in b.iter().enumerate() {
            c.state();
            c.step();
            text.push_str(&format!("mod m{j} {{\n{}}}\n", program(case)));
            main.push_str(&format!("m{j}::run();\n"));
        }
        c.outcome(&i);
        c.note(|| b[0].desc.clone());
        if let Verdict::Refused(e) = compile(&lib, &format!("{text}\nfn main() {{ {main} }}\n"), true) {
            for case in b {
                if let Verdict::Refused(e) = compile(&lib, &format!("{}\nfn main() {{ run() }}\n", program(case)), true) {
                    bad!("{}: {}", case.desc, head(&e));
                }
            }
            bad!("{} and others in one program: {}", b[0].desc, head(&e));
        }
        Ok(())
    });
}

/// Tables computed at compile time against the same code run.
fn tables(k: &mut Check, dims: Vec<(u32, u32)>) {
    let mut progs: Vec<(String, String)> = vec![];
    for (x, y) in dims {
        // every coordinate up to some beyond the grid
        let (n, m) = (x + 3, y + 3);
        let words = (x + 1) * (y + 1) / 32 + 1;
        progs.push((
            format!("positions of {}x{}", x + 1, y + 1),
            format!(
                "use sqrid::*;
type P = Pos<{x}, {y}>;
const fn one(x: u16, y: u16) -> (bool, u16, u16, (u16, u16)) {{
    match P::new(x, y) {{ Ok(p) => (true, p.x(), p.y(), p.tuple()), Err(_) => (false, 0, 0, (0, 0)) }}
}}
const fn table() -> [[(bool, u16, u16, (u16, u16)); {n}]; {m}] {{
    let mut t = [[(false, 0, 0, (0, 0)); {n}]; {m}];
    let mut j = 0;
    while j < {m} {{
        let mut i = 0;
        while i < {n} {{
            t[j][i] = one(i as u16, j as u16);
            i += 1;
        }}
        j += 1;
    }}
    t
}}
static T: [[(bool, u16, u16, (u16, u16)); {n}]; {m}] = table();
type B = Gridbool<P, {words}>;
static ON: B = B::repeat(true);
static OFF: B = B::repeat(false);
const ON2: B = B::ALL_TRUE;
fn main() {{
    for j in 0..{m}u16 {{
        for i in 0..{n}u16 {{
            let want = if i <= {x} && j <= {y} {{ (true, i, j, (i, j)) }} else {{ (false, 0, 0, (0, 0)) }};
            assert_eq!(T[j as usize][i as usize], want, \"({{i}},{{j}})\");
            assert_eq!(one(std::hint::black_box(i), std::hint::black_box(j)), want, \"({{i}},{{j}})\");
            if want.0 {{
                let p = P::new_unwrap(i, j);
                assert!(ON.get(&p) && !OFF.get(&p) && ON2.get(&p), \"{{p}}\");
            }}
        }}
    }}
    assert!(ON == B::repeat(std::hint::black_box(true)) && OFF == B::default() && ON2 == ON);
    const NAMED: [P; 7] = [P::FIRST, P::LAST, P::CENTER, P::TOP_LEFT, P::TOP_RIGHT, P::BOTTOM_LEFT, P::BOTTOM_RIGHT];
    let t: Vec<(u16, u16)> = NAMED.iter().map(|p| p.tuple()).collect();
    assert_eq!(t, [(0, 0), ({x}, {y}), ({x} / 2, {y} / 2), (0, 0), ({x}, 0), (0, {y}), ({x}, {y})]);
}}
"
            ),
        ));
    }
    progs.push((
        "directions".into(),
        "use sqrid::*;
const ALL: [Dir; 8] = [Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW];
const fn rotations() -> [[Dir; 8]; 8] {
    let mut t = [[Dir::N; 8]; 8];
    let mut i = 0;
    while i < 8 {
        let mut j = 0;
        while j < 8 { t[i][j] = ALL[i].rotate(&ALL[j]); j += 1; }
        i += 1;
    }
    t
}
const fn flips() -> [Dir; 8] {
    let mut t = [Dir::N; 8];
    let mut i = 0;
    while i < 8 { t[i] = ALL[i].flip(); i += 1; }
    t
}
const fn nexts<const D: bool>() -> [Option<Dir>; 8] {
    let mut t = [None; 8];
    let mut i = 0;
    while i < 8 { if D || !ALL[i].is_diagonal() { t[i] = ALL[i].next::<D>(); } i += 1; }
    t
}
type Names = (&'static str, &'static str, char, &'static str, char, bool);
const fn names(d: Dir) -> Names { (d.name_cardinal(), d.name_utf8(), d.name_utf8_char(), d.name_ascii(), d.name_ascii_char(), d.is_diagonal()) }
const N: [Names; 8] = [names(Dir::N), names(Dir::NE), names(Dir::E), names(Dir::SE), names(Dir::S), names(Dir::SW), names(Dir::W), names(Dir::NW)];
const R: [[Dir; 8]; 8] = rotations();
const F: [Dir; 8] = flips();
const N8: [Option<Dir>; 8] = nexts::<true>();
const N4: [Option<Dir>; 8] = nexts::<false>();
fn main() {
    for i in 0..8 {
        let a = std::hint::black_box(ALL[i]);
        for j in 0..8 {
            assert_eq!(R[i][j], ALL[(i + j) % 8]);
            assert_eq!(R[i][j], a.rotate(&ALL[j]));
            assert_eq!(R[i][j], a + ALL[j]);
        }
        assert_eq!(F[i], ALL[(i + 4) % 8]);
        assert_eq!(F[i], a.flip());
        assert_eq!(N8[i], ALL.get(i + 1).copied());
        assert_eq!(N8[i], a.next::<true>());
        if i % 2 == 0 {
            assert_eq!(N4[i], ALL.get(i + 2).copied());
            assert_eq!(N4[i], a.next::<false>());
        }
        assert_eq!(N[i].5, i % 2 == 1);
        assert_eq!(N[i], names(a));
    }
}
"
        .into(),
    ));
    for (ty, prim, vals) in TYPES {
        for (lo, hi) in vals.chunks(2).map(|c| (c[0], c[1])) {
            progs.push((
                format!("{ty}<{lo}, {hi}>"),
                format!(
                    "use sqrid::*;
type B = {ty}<{{ {lo} }}, {{ {hi} }}>;
const LO: {prim} = {lo};
const HI: {prim} = {hi};
const fn value(i: usize) -> {prim} {{
    let d = (i % 9) as {prim};
    match i / 9 {{ 0 => LO.wrapping_add(d).wrapping_sub(4), 1 => HI.wrapping_add(d).wrapping_sub(4), 2 => d, 3 => {prim}::MIN + d, _ => {prim}::MAX - d }}
}}
const fn one(v: {prim}) -> Option<{prim}> {{ match B::new(v) {{ Ok(b) => Some(b.into_inner()), Err(_) => None }} }}
const fn table() -> [Option<{prim}>; 45] {{
    let mut t = [None; 45];
    let mut i = 0;
    while i < 45 {{ t[i] = one(value(i)); i += 1; }}
    t
}}
const T: [Option<{prim}>; 45] = table();
const ENDS: (B, B) = (<B as BoundedInt>::MIN, <B as BoundedInt>::MAX);
fn main() {{
    for i in 0..45 {{
        let v = std::hint::black_box(value(i));
        let want = if LO <= v && v <= HI {{ Some(v) }} else {{ None }};
        assert_eq!(T[i], want, \"{{v}}\");
        assert_eq!(one(v), want, \"{{v}}\");
    }}
    assert_eq!((ENDS.0.into_inner(), ENDS.1.into_inner()), (LO, HI));
}}
"
                ),
            ));
        }
    }
    let lib = library();
    k.fam("tables", "whole tables computed at compile time, compared with the model and with the same code at run time: positions and boolean grids of several sizes, directions, bounded integers of every type", progs.len() as u64, move |i, c| {
        let (desc, text) = &progs[i as usize];
        c.state();
        c.step();
        c.outcome(&i);
        c.note(|| desc.clone());
        if let Verdict::Refused(e) = compile(&lib, text, true) {
            bad!("tables of {desc}: {}", head(&e));
        }
        Ok(())
    });
}

/// Bounded types, and pairs of bounds.
const TYPES: [(&str, &str, &[&str]); 11] = [
    ("BoundedU8", "u8", &["0", "5", "250", "255", "7", "7", "0", "255"]),
    ("BoundedU16", "u16", &["0", "5", "250", "300", "65530", "65535", "0", "65535"]),
    ("BoundedU32", "u32", &["0", "5", "65530", "65540", "4294967290", "4294967295"]),
    ("BoundedU64", "u64", &["0", "5", "4294967290", "4294967300", "18446744073709551610", "18446744073709551615"]),
    ("BoundedU128", "u128", &["0", "5", "18446744073709551610", "18446744073709551620"]),
    ("BoundedI8", "i8", &["-3", "3", "-128", "-121", "120", "127", "-5", "-2", "2", "5"]),
    ("BoundedI16", "i16", &["-3", "3", "-32768", "-32760", "-300", "-200", "200", "300"]),
    ("BoundedI32", "i32", &["-3", "3", "-70000", "-69990", "2147483640", "2147483647"]),
    ("BoundedI64", "i64", &["-3", "3", "-5000000000", "-4999999990"]),
    ("BoundedIsize", "isize", &["-3", "3", "-5000000000", "-4999999990"]),
    ("BoundedI128", "i128", &["-3", "3", "-18446744073709551620", "-18446744073709551610"]),
];

fn main() {
    let mut k = Check::new("C28", "generated programs x constants", "verdicts of the compiler and constants compared with run time");
    let deep = k.thorough();
    let dims: Vec<(u32, u32)> = if deep { vec![(0, 0), (1, 0), (0, 1), (4, 6), (7, 3), (31, 2), (255, 1), (1, 255), (256, 255), (65534, 3), (3, 65534), (65535, 0), (0, 65535), (299, 217)] } else { vec![(0, 0), (4, 6), (7, 3), (255, 1), (3, 65534)] };
    let mut cases = vec![];
    for (n, (x, y)) in dims.iter().enumerate() {
        for (i, cx) in near(*x).into_iter().enumerate() {
            for (j, cy) in near(*y).into_iter().enumerate() {
                for way in 0..POS_WAYS.len() {
                    // every way within the bounds; outside, the ways take turns in the quick tier
                    if deep || (cx <= *x && cy <= *y) || (n + i + j) % POS_WAYS.len() == way {
                        cases.push(pos(*x, *y, cx, cy, way));
                    }
                }
            }
        }
    }
    judge(&mut k, "positions", &format!("Pos<X, Y> for {dims:?}, coordinates around the limits, {} ways", POS_WAYS.len()), cases);
    let mut cases = vec![];
    for (n, (ty, prim, vals)) in TYPES.iter().enumerate() {
        for (lo, hi) in vals.chunks(2).map(|c| (c[0], c[1])) {
            let (l, h): (i128, i128) = (lo.parse().unwrap(), hi.parse().unwrap());
            let (min, max): (i128, i128) = match *prim {
                "u8" => (0, u8::MAX as i128),
                "u16" => (0, u16::MAX as i128),
                "u32" => (0, u32::MAX as i128),
                "u64" => (0, u64::MAX as i128),
                "u128" => (0, i128::MAX),
                "i8" => (i8::MIN as i128, i8::MAX as i128),
                "i16" => (i16::MIN as i128, i16::MAX as i128),
                "i32" => (i32::MIN as i128, i32::MAX as i128),
                "i64" | "isize" => (i64::MIN as i128, i64::MAX as i128),
                _ => (i128::MIN + 1, i128::MAX),
            };
            let mut vs = vec![l - 1, l, l + 1, h - 1, h, h + 1, 0, min, max, l - 256, h + 256, -1];
            vs.retain(|v| (min..=max).contains(v));
            vs.sort();
            vs.dedup();
            for (i, v) in vs.iter().enumerate() {
                let good = l <= *v && *v <= h;
                for way in 0..INT_WAYS.len() {
                    if deep || good || (n + i) % INT_WAYS.len() == way {
                        cases.push(int(ty, prim, lo, hi, &v.to_string(), good, way));
                    }
                }
            }
        }
    }
    judge(&mut k, "bounded integers", &format!("every type, several bounds each, values around the bounds and at the limits of the type, {} ways", INT_WAYS.len()), cases);
    let mut sizes: Vec<(u32, u32)> = vec![(0, 0), (4, 6), (7, 3), (31, 0), (0, 32), (15, 15), (255, 2), (2, 256), (0, 1000)];
    if deep {
        sizes.extend((0..=9).flat_map(|x| (0..=9).map(move |y| (x, y))));
        sizes.sort();
        sizes.dedup();
    }
    tables(&mut k, sizes);
    k.assume("the compiler installed here, whose verdicts are taken as they are");
    k.run()
}
