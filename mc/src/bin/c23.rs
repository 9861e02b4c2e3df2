//! C23: the printed form of a grid shows every cell at its row and column.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::fmt::{Debug, Display, Write};

/// A format: its name, how it prints a grid, how it pads a cell.
macro_rules! formats {
    ($( $lit:literal $(, $arg:ident = $val:literal)* );+ $(;)?) => {
        fn formats<G: Display>() -> Vec<(&'static str, fn(&G) -> String, fn(&str) -> String)> {
            vec![$( ($lit, |g| format!($lit, g $(, $arg = $val)*), |s| format!($lit, s $(, $arg = $val)*)) ),+]
        }
    };
}

formats! {
    "{}"; "{:1}"; "{:2}"; "{:3}"; "{:5}"; "{:<3}"; "{:>1}"; "{:>2}"; "{:>4}"; "{:^3}"; "{:^4}"; "{:*<2}"; "{:*>3}"; "{:_^4}"; "{:·<3}"; "{:ab$}", ab = 6; "{:>ab$}", ab = 2;
    "{:04}"; "{:#3}"; "{:+2}"; "{:.2}"; "{:4.1}"; "{:_>3.0}"; "{:.ab$}", ab = 1;
}

const SOME: [&str; 3] = ["{}", "{:2}", "{:>3}"];

fn digits_of(n: usize) -> usize {
    let mut d = 1;
    let mut m = n;
    while m >= 10 {
        m /= 10;
        d += 1;
    }
    d
}

/// Digit number `k` (from the left, of `of`) of a number, or a blank.
fn digit(n: usize, k: usize, of: usize) -> char {
    let back = of - 1 - k;
    let p = 10usize.pow(back as u32);
    if back > 0 && n < p {
        ' '
    } else {
        (b'0' + (n / p % 10) as u8) as char
    }
}

/// What a grid of these cells has to look like.
fn expected(w: usize, h: usize, cell: &dyn Fn(usize) -> String, pad: &dyn Fn(&str) -> String) -> String {
    let (dx, dy) = (digits_of(w - 1), digits_of(h - 1));
    let mut head = String::new();
    let labels: Vec<String> = " 0123456789".chars().map(|c| pad(&c.to_string())).collect();
    for k in 0..dx {
        (0..dy + 1).for_each(|_| head.push(' '));
        for x in 0..w {
            let d = digit(x, k, dx);
            head.push_str(&labels[d.to_digit(10).map_or(0, |d| d as usize + 1)]);
        }
        head.push('\n');
    }
    let mut s = head.clone();
    for y in 0..h {
        (0..dy).for_each(|k| s.push(digit(y, k, dy)));
        s.push(' ');
        for x in 0..w {
            s.push_str(&pad(&cell(y * w + x)));
        }
        s.push('\n');
    }
    s + &head
}

fn differ(name: &str, fmt: &str, got: &str, want: &str) -> Res {
    if got == want {
        return Ok(());
    }
    if got.lines().count() != want.lines().count() {
        bad!("{name} printed with {fmt}: {} lines, expected {}", got.lines().count(), want.lines().count());
    }
    let cut = |s: &str| s.chars().take(160).collect::<String>();
    for (i, (g, w)) in got.lines().zip(want.lines()).enumerate() {
        if g != w {
            let at = g.chars().zip(w.chars()).take_while(|(a, b)| a == b).count();
            bad!("{name} printed with {fmt}: line {i} differs at column {at}: got {:?}, expected {:?}", cut(g), cut(w));
        }
    }
    bad!("{name} printed with {fmt}: differs from what is expected in its line ends")
}

trait Pp: PosT + Copy + Debug + Send + Sync + 'static {}
impl<P: PosT + Copy + Debug + Send + Sync + 'static> Pp for P {}

fn put<G: Display>(name: &str, g: &G, w: usize, h: usize, cell: &dyn Fn(usize) -> String, all: bool, c: &mut Ctx) -> Res {
    for (fmt, show, pad) in formats::<G>() {
        if !all && !SOME.contains(&fmt) {
            continue;
        }
        c.step();
        let want = expected(w, h, cell, &pad);
        differ(name, fmt, &show(g), &want)?;
        if fmt == "{}" {
            differ(name, "to_string", &g.to_string(), &want)?;
            let mut s = String::new();
            write!(s, "{g}").map_err(|e| Viol::from(format!("{name}: {e}")))?;
            differ(name, "write!", &s, &want)?;
        }
    }
    Ok(())
}

/// The two marks, as a grid of one square shows them.
fn marks() -> Result<[String; 2], Viol> {
    let show = |b: bool| -> Result<String, Viol> {
        let t = Gridbool::<Pos<0, 0>, 1>::repeat(b).to_string();
        let l: Vec<&str> = t.lines().collect();
        match l[..] {
            ["  0", row, "  0"] if row.starts_with("0 ") && row.chars().count() == 3 => Ok(row[2..].to_string()),
            _ => bad!("a boolean grid of one square prints as {t:?}"),
        }
    };
    let m = [show(false)?, show(true)?];
    if m[0] == m[1] {
        bad!("the same mark for true and false: {:?}", m[0]);
    }
    Ok(m)
}

fn wh<P: Pp>() -> (usize, usize) {
    let (_, x1, _, y1) = bounds::<P>();
    (x1 as usize + 1, y1 as usize + 1)
}

fn bools<P: Pp, const W: usize>(v: &dyn Fn(usize) -> bool, all: bool, c: &mut Ctx) -> Res {
    let (w, h) = wh::<P>();
    let m = marks()?;
    let mut g = Box::new(Gridbool::<P, W>::ALL_FALSE);
    for i in 0..w * h {
        g.set(&mk::<P>((i % w) as i128, (i / w) as i128), v(i));
    }
    put(&format!("boolean grid {w}x{h}"), &*g, w, h, &|i| m[v(i) as usize].clone(), all, c)
}

fn items<T: Display + Default, P: Pp, const S: usize>(name: &str, v: &dyn Fn(usize) -> T, all: bool, c: &mut Ctx) -> Res {
    let (w, h) = wh::<P>();
    let g: Box<Grid<T, P, S>> = Box::new((0..S).map(v).collect());
    put(&format!("grid {w}x{h} of {name}"), &*g, w, h, &|i| format!("{}", v(i)), all, c)
}

/// Every content of a small boolean grid, and every choice of two items.
fn small<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(format!("{}x{} every content", X + 1, Y + 1), "every boolean content, as boolean grid and as grid of two items (characters, numbers, strings of unequal length); 24 formats (widths, alignments, fills, precisions, signs)", 1u64 << S, move |i, c| {
        c.state();
        let v = |j: usize| i >> j & 1 == 1;
        c.outcome(&i);
        c.note(|| format!("{i:b}"));
        bools::<Pos<X, Y>, W>(&v, true, c)?;
        items::<char, Pos<X, Y>, S>("characters", &|j| if v(j) { 'x' } else { ' ' }, true, c)?;
        items::<i32, Pos<X, Y>, S>("numbers", &|j| if v(j) { -12 } else { 7 }, true, c)?;
        items::<String, Pos<X, Y>, S>("strings", &|j| if v(j) { String::new() } else { "päd".into() }, true, c)
    });
}

const CONTENTS: usize = 7;
fn content<P: Pp, const W: usize, const S: usize>(i: usize, all: bool, c: &mut Ctx) -> Res {
    let (w, _) = wh::<P>();
    match i {
        0 => bools::<P, W>(&|j| j % 3 == 0, all, c),
        1 => bools::<P, W>(&|j| (j * 7 + j / w) % 5 < 2, all, c),
        2 => bools::<P, W>(&|j| j / w % 2 == 0, all, c),
        3 => bools::<P, W>(&|j| j == S - 1, all, c),
        4 => items::<usize, P, S>("their indices", &|j| j, all, c),
        5 => items::<String, P, S>("strings", &|j| ["a", "", "bcd", "é", "##", "  z"][j % 6].to_string(), all, c),
        _ => items::<char, P, S>("letters", &|j| (b'a' + (j % 26) as u8) as char, all, c),
    }
}

fn sizes<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check, all: bool) {
    k.fam(format!("{}x{}", X as usize + 1, Y as usize + 1), format!("7 contents (patterns of booleans, indices, strings, letters); {} formats", if all { 24 } else { 3 }), CONTENTS as u64, move |i, c| {
        c.state();
        c.outcome(&i);
        content::<Pos<X, Y>, W, S>(i as usize, all, c)
    });
}

/// A writer that refuses its n-th write: only that one, or all from there on.
struct Refuse {
    n: usize,
    on: bool,
    seen: usize,
    text: String,
    refused: usize,
}
impl Write for Refuse {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.seen += 1;
        if self.seen == self.n || (self.on && self.seen > self.n) {
            self.refused += 1;
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Every point at which the writer may refuse.
fn refusals<G: Display>(name: &str, g: &G, c: &mut Ctx) -> Res {
    type Put<G> = fn(&mut Refuse, &G) -> std::fmt::Result;
    let puts: [(&str, Put<G>); 3] = [("{}", |r, g| write!(r, "{g}")), ("{:3}", |r, g| write!(r, "{g:3}")), ("{:*>2}", |r, g| write!(r, "{g:*>2}"))];
    for (fmt, put) in puts {
        let new = |n, on| Refuse { n, on, seen: 0, text: String::new(), refused: 0 };
        let mut whole = new(0, false);
        if put(&mut whole, g).is_err() {
            bad!("{name} printed with {fmt}: refused, though the writer accepted everything");
        }
        for n in 1..=whole.seen {
            for on in [false, true] {
                c.step();
                let mut r = new(n, on);
                let got = put(&mut r, g);
                if r.refused == 0 {
                    bad!("{name} printed with {fmt}: only {} writes, {} before", r.seen, whole.seen);
                }
                if got.is_ok() && r.text != whole.text {
                    bad!("{name} printed with {fmt}: the writer refused write number {n}, but printing reports success");
                }
                if !whole.text.starts_with(&r.text) {
                    bad!("{name} printed with {fmt}: the writer refused write number {n}; {:?} was written, not the beginning of the printed form", r.text);
                }
            }
        }
    }
    Ok(())
}

fn refuse<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(format!("{}x{} writers that refuse", X as u32 + 1, Y as u32 + 1), "boolean grid and grid of strings, 3 formats; the writer refuses the n-th write, only this or all from there on, for every n", 2, move |i, c| {
        c.state();
        c.outcome(&i);
        if i == 0 {
            let g: Gridbool<Pos<X, Y>, W> = (0..S).map(|j| j % 3 == 0).collect();
            refusals("boolean grid", &g, c)
        } else {
            let g: Grid<String, Pos<X, Y>, S> = (0..S).map(|j| ["a", "", "bcd", "é"][j % 4].to_string()).collect();
            refusals("grid of strings", &g, c)
        }
    });
}

/// The widths from 0 to 300, and large ones.
fn width(i: u64) -> usize {
    const LARGE: [usize; 12] = [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000];
    if i <= 300 { i as usize } else { LARGE[i as usize - 301] }
}

/// Cells of every width, aligned and filled in every way.
fn wide<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(format!("{}x{} cells of every width", X as u32 + 1, Y as u32 + 1), "boolean grid, grids of strings and of numbers; widths 0 to 300, and 12 up to 10000; 4 alignments, 3 fills, with and without a precision", 313, move |i, c| {
        c.state();
        c.outcome(&i);
        let n = width(i);
        let m = marks()?;
        let on = |j: usize| j % 3 == 0;
        let text = |j: usize| ["a", "", "bcd", "é"][j % 4].to_string();
        let g: Gridbool<Pos<X, Y>, W> = (0..S).map(on).collect();
        let t: Grid<String, Pos<X, Y>, S> = (0..S).map(text).collect();
        let u: Grid<usize, Pos<X, Y>, S> = (0..S).map(|j| j * j).collect();
        let (w, h) = (X as usize + 1, Y as usize + 1);
        macro_rules! each {
            ($($f:literal)*) => { $({
                let pad: &dyn Fn(&str) -> String = &|s| format!($f, s, n = n);
                let say = format!("{} (n = {n})", $f);
                c.step();
                differ("boolean grid", &say, &format!($f, g, n = n), &expected(w, h, &|j| m[on(j) as usize].clone(), pad))?;
                differ("grid of strings", &say, &format!($f, t, n = n), &expected(w, h, &text, pad))?;
                differ("grid of numbers", &say, &format!($f, u, n = n), &expected(w, h, &|j| (j * j).to_string(), pad))?;
            })* };
        }
        each!("{:n$}" "{:<n$}" "{:>n$}" "{:^n$}" "{:*<n$}" "{:*>n$}" "{:*^n$}" "{:·<n$}" "{:·>n$}" "{:·^n$}" "{:.n$}" "{:n$.n$}" "{:_>n$.n$}" "{:n$.1}" "{:<n$.2}" "{:>n$.1}" "{:^n$.2}");
        Ok(())
    });
}

/// One true square, everywhere in turn.
fn single<const X: u16, const Y: u16, const W: usize, const S: usize>(k: &mut Check) {
    k.fam(format!("{}x{} single square", X + 1, Y + 1), "one true square (false square) at every position", 2 * S as u64, move |i, c| {
        c.state();
        c.outcome(&i);
        bools::<Pos<X, Y>, W>(&|j| (j as u64 == i / 2) == (i % 2 == 0), false, c)
    });
}

fn user<P: Pp, const W: usize, const S: usize>(k: &mut Check, name: &str) {
    k.fam(name.to_string(), format!("grids of positions of type {name}, 7 contents, 24 formats"), CONTENTS as u64, move |i, c| {
        c.state();
        c.outcome(&i);
        content::<P, W, S>(i as usize, true, c)
    });
}

fn main() {
    let mut k = Check::new("C23", "contents printed", "printed forms compared with the layout drawn by the model");
    let deep = k.thorough();
    each_dim! { small(&mut k); (0, 0) (1, 0) (2, 0) (0, 1) (0, 2) (1, 1) (2, 1) (1, 2) (3, 0) (0, 3) (2, 2) (4, 1) (1, 4) (3, 2) (2, 3) }
    dims_small!(each_dim, sizes(&mut k, true));
    each_dim! { sizes(&mut k, true); (6, 8) (8, 6) (8, 9) (9, 8) (9, 9) (10, 9) (9, 10) (10, 10) (11, 12) (19, 20) (98, 1) (99, 1) (100, 1) (1, 98) (1, 99) (1, 100) (99, 99) (100, 100) (9, 99) (99, 9) (30, 31) (110, 12) (12, 110) }
    each_dim! { sizes(&mut k, false); (255, 1) (1, 255) (998, 1) (999, 1) (1000, 1) (1, 998) (1, 999) (1, 1000) (9998, 0) (9999, 0) (10000, 0) (0, 9998) (0, 9999) (0, 10000) (65535, 0) (0, 65535) (299, 217) }
    each_dim! { single(&mut k); (4, 3) (3, 4) (11, 2) (2, 11) (0, 12) (12, 0) (15, 15) }
    user::<Mix53, 1, 15>(&mut k, "Mix53");
    user::<Mix26, 1, 12>(&mut k, "Mix26");
    user::<Sq44, 1, 16>(&mut k, "Sq44");
    user::<Byte3, 24, 768>(&mut k, "Byte3");
    user::<Three256, 24, 768>(&mut k, "Three256");
    if deep {
        each_dim! { small(&mut k); (14, 0) (0, 14) (4, 2) (2, 4) (6, 1) (1, 6) }
        dims_mid!(each_dim, single(&mut k));
        user::<(u8, u8), 2048, 65536>(&mut k, "(u8,u8)");
        each_dim! { sizes(&mut k, false); (65535, 1) (1, 65535) (255, 255) (1023, 63) (63, 1023) (32767, 1) (2, 32768) }
    }
    each_dim! { wide(&mut k); (0, 0) (1, 1) (4, 1) (10, 0) (0, 10) }
    each_dim! { refuse(&mut k); (0, 0) (1, 0) (0, 1) (1, 1) (2, 1) (1, 2) (3, 2) (2, 3) (4, 3) (10, 1) (1, 10) (11, 2) (2, 11) (7, 7) (10, 10) (100, 0) (0, 100) (99, 1) (15, 20) }
    k.assume("cells whose own printed form has no line ends");
    k.run()
}
