//! C08: directions form a compass.
use mc::model::*;
use mc::*;
use sqrid::{Dir, Error};
use std::str::FromStr;

// The compass of the model, clockwise from north, with everything that is
// known about each direction
const NAMES: [&str; 8] = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"];
const UTF8: [char; 8] = ['\u{2191}', '\u{2197}', '\u{2192}', '\u{2198}', '\u{2193}', '\u{2199}', '\u{2190}', '\u{2196}'];
const ASCII: [char; 8] = ['^', '7', '>', '\\', 'v', 'L', '<', '`'];

fn of_char(ch: char) -> Option<Dir> {
    for i in 0..8 {
        if UTF8[i] == ch || ASCII[i] == ch {
            return Some(COMPASS[i]);
        }
        if i % 2 == 0 && NAMES[i].starts_with(ch.to_ascii_uppercase()) {
            return Some(COMPASS[i]);
        }
    }
    None
}

fn parse(s: &str, want: Option<Dir>, c: &mut Ctx) -> Res {
    c.add(1, 2);
    for (r, how) in [(Dir::from_str(s), "from_str"), (s.parse::<Dir>(), "parse")] {
        match (&r, want) {
            (Ok(d), Some(w)) if *d == w => {}
            (Err(Error::DirParseError), None) => {}
            _ => bad!("{how} of {s:?} gave {r:?}, expected {want:?}"),
        }
    }
    Ok(())
}

macro_rules! offsets {
    ($k:expr; $($t:ident)*) => { $(
        let vals: Vec<$t> = {
            let mut v: Vec<$t> = (-20i8..=20).map(|x| x as $t).collect();
            if <$t>::BITS == 8 {
                v = (<$t>::MIN..=<$t>::MAX).collect();
            } else {
                for x in interesting(&[1], 2) {
                    if let Ok(x) = <$t>::try_from(x) {
                        v.push(x);
                    }
                }
                v.sort();
                v.dedup();
            }
            v
        };
        $k.fam(concat!("offsets of ", stringify!($t)), format!("all pairs of {} values (every value of i8; -20..20, powers of two, limits and neighbours otherwise)", vals.len()), vals.len() as u64, move |i, c| {
            let x = vals[i as usize];
            for &y in &vals {
                c.add(1, 2);
                let want = COMPASS.iter().find(|d| (off(**d).0 as i128, off(**d).1 as i128) == (x as i128, y as i128)).copied();
                for (r, how) in [(Dir::try_from((x, y)), "value"), (Dir::try_from(&(x, y)), "reference")] {
                    match (&r, want) {
                        (Ok(d), Some(w)) if *d == w => {}
                        (Err(Error::InvalidDirection), None) => {}
                        _ => bad!("try_from {how} ({x},{y}) of {} gave {r:?}, expected {want:?}", stringify!($t)),
                    }
                }
                if let Some(d) = want {
                    same!(<($t, $t)>::from(d), (x, y), "offset of {d:?}");
                    c.step();
                }
            }
            Ok(())
        });
        $k.fam(concat!("offset of each direction as ", stringify!($t)), "8 directions", 8, |i, c| {
            let d = COMPASS[i as usize];
            let (x, y) = <($t, $t)>::from(d);
            c.add(1, 1);
            same!((x as i128, y as i128), (off(d).0 as i128, off(d).1 as i128), "offset of {d:?}");
            Ok(())
        });
    )* };
}

fn main() {
    let mut k = Check::new("C08", "directions, pairs and triples of directions, characters, strings, offsets", "results compared with the compass model");
    k.fam("each direction", "8 directions: negation, names, symbols, arrays, successor, diagonal", 8, |i, c| {
        let i = i as usize;
        let d = COMPASS[i];
        c.add(1, 22);
        same!(d as usize, i, "number of {d:?}");
        same!(Dir::ALL8[i], d, "ALL8");
        if i % 2 == 0 {
            same!(Dir::ALL4[i / 2], d, "ALL4");
        }
        same!(-d, opposite(d), "negation of {d:?}");
        same!(d.flip(), opposite(d), "flip of {d:?}");
        same!(-(-d), d, "double negation of {d:?}");
        same!(d.flip().flip(), d, "double flip of {d:?}");
        same!(d + d.flip(), d.flip() + d, "sum of {d:?} and its opposite");
        same!(d.is_diagonal(), off(d).0 != 0 && off(d).1 != 0, "is_diagonal of {d:?}");
        same!(d.name_cardinal(), NAMES[i], "name_cardinal");
        same!(Dir::NAMES_CARDINAL[i], NAMES[i], "NAMES_CARDINAL");
        same!(d.to_string(), NAMES[i], "Display");
        same!(d.name_utf8(), UTF8[i].to_string(), "name_utf8");
        same!(Dir::NAMES_UTF8[i], UTF8[i].to_string(), "NAMES_UTF8");
        same!(d.name_utf8_char(), UTF8[i], "name_utf8_char");
        same!(Dir::NAMES_UTF8_CHAR[i], UTF8[i], "NAMES_UTF8_CHAR");
        same!(d.name_ascii(), ASCII[i].to_string(), "name_ascii");
        same!(Dir::NAMES_ASCII[i], ASCII[i].to_string(), "NAMES_ASCII");
        same!(d.name_ascii_char(), ASCII[i], "name_ascii_char");
        same!(Dir::NAMES_ASCII_CHAR[i], ASCII[i], "NAMES_ASCII_CHAR");
        same!(d.next::<true>(), COMPASS.get(i + 1).copied(), "next::<true> of {d:?}");
        if i % 2 == 0 {
            same!(d.next::<false>(), COMPASS.get(i + 2).copied(), "next::<false> of {d:?}");
        }
        parse(d.name_utf8(), Some(d), c)?;
        parse(d.name_ascii(), Some(d), c)?;
        if i % 2 == 0 {
            parse(d.name_cardinal(), Some(d), c)?;
            parse(&d.name_cardinal().to_lowercase(), Some(d), c)?;
        }
        same!(Dir::default(), Dir::N, "default");
        same!(Dir::SIZE, 8, "SIZE");
        Ok(())
    });
    k.fam("sums", "all pairs and triples of directions", 64, |i, c| {
        let (a, b) = (COMPASS[i as usize / 8], COMPASS[i as usize % 8]);
        let want = COMPASS[(i as usize / 8 + i as usize % 8) % 8];
        same!(a + b, want, "{a:?} + {b:?}");
        same!(a.rotate(&b), want, "{a:?}.rotate({b:?})");
        let mut s = a;
        s += b;
        same!(s, want, "{a:?} += {b:?}");
        same!(b + a, want, "{b:?} + {a:?}");
        same!(a == b, i / 8 == i % 8, "{a:?} == {b:?}");
        c.add(1, 5);
        for e in COMPASS {
            same!((a + b) + e, a + (b + e), "sums of {a:?}, {b:?}, {e:?}");
            same!(-(a + b), -a + b, "negated sum of {a:?} and {b:?}");
            c.add(1, 2);
        }
        // the offset of a sum is the rotated offset, for quarter turns
        if i % 2 == 0 {
            let (mut x, mut y) = off(a);
            for _ in 0..(i % 8) / 2 {
                (x, y) = (-y, x);
            }
            same!(off(a + b), (x, y), "offset of {a:?} turned by {b:?}");
            c.step();
        }
        Ok(())
    });
    fn iterate<const D: bool>(c: &mut Ctx) -> Res {
        let want = dirs(D);
        let mut it = Dir::iter::<D>();
        let (lo, hi) = it.size_hint();
        if lo > want.len() || hi.is_some_and(|h| h < want.len()) {
            bad!("size hint of fresh iter::<{D}> is {lo}, {hi:?}");
        }
        for &w in want {
            same!(it.next(), Some(w), "iter::<{D}>");
            c.add(1, 1);
        }
        for _ in 0..4 {
            same!(it.next(), None, "iter::<{D}> after the end");
            c.step();
        }
        same!(Dir::iter::<D>().collect::<Vec<_>>(), want.to_vec(), "collected iter::<{D}>");
        same!(Dir::iter::<D>().count(), want.len(), "count of iter::<{D}>");
        same!(Dir::iter::<D>().last(), want.last().copied(), "last of iter::<{D}>");
        same!(sqrid::DirIter::<D>::default().collect::<Vec<_>>(), want.to_vec(), "default DirIter<{D}>");
        for i in 0..10 {
            let mut it = Dir::iter::<D>();
            same!(it.nth(i), want.get(i).copied(), "nth({i}) of iter::<{D}>");
            same!(it.next(), want.get(i + 1).copied(), "next after nth({i}) of iter::<{D}>");
            // an iterator that was copied halfway goes on from there
            let mut it = Dir::iter::<D>();
            for _ in 0..i {
                it.next();
            }
            let copy = it;
            same!(copy.collect::<Vec<_>>(), want.get(i..).unwrap_or(&[]).to_vec(), "rest of iter::<{D}> after {i}");
            c.add(1, 3);
        }
        Ok(())
    }
    k.fam("iteration", "with and without diagonals, every prefix, beyond the end", 2, |i, c| if i == 0 { iterate::<false>(c) } else { iterate::<true>(c) });
    k.fam("mixed calls on the iteration", "with and without diagonals: directions taken one by one, then every way of going on: nth, skip, step_by, take, find, fold, count, last, max, min..., up to and beyond the end, and then the rest", 2, |i, c| if i == 0 { iter::extremes(&Dir::iter::<false>, &|| "iter::<false>".into(), c)?; iter::extremes(&Dir::iter::<true>, &|| "iter::<true>".into(), c)?; iter::forward(&Dir::iter::<false>, &CARDINAL, &|| "iter::<false>".into(), c) } else { iter::forward(&Dir::iter::<true>, &COMPASS, &|| "iter::<true>".into(), c) });
    k.fam("characters", "every Unicode scalar value, as character and as string", 0x110000 / 0x1000, |i, c| {
        for u in i as u32 * 0x1000..(i as u32 + 1) * 0x1000 {
            let Some(ch) = char::from_u32(u) else { continue };
            let want = of_char(ch);
            let r = Dir::try_from(ch);
            c.step();
            match (&r, want) {
                (Ok(d), Some(w)) if *d == w => {}
                (Err(Error::DirParseError), None) => {}
                _ => bad!("try_from {ch:?} gave {r:?}, expected {want:?}"),
            }
            parse(ch.encode_utf8(&mut [0; 4]), want, c)?;
        }
        Ok(())
    });
    // Longer strings: anything of two or three characters of this alphabet
    let alphabet: Vec<char> = (0u8..128)
        .map(|b| b as char)
        .chain(UTF8)
        .chain(['\u{0}', '\u{fe0f}', '\u{301}', '\u{2195}', '\u{ffff}', '\u{10ffff}', '\u{e9}'])
        .collect();
    let n = alphabet.len() as u64;
    k.fam("strings", format!("the empty string and all strings of two of {n} characters (ASCII, arrows, combining) or three of them where two are names; except the names of the diagonals"), n, move |i, c| {
        if i == 0 {
            parse("", None, c)?;
        }
        let a = alphabet[i as usize];
        for &b in &alphabet {
            let s: String = [a, b].iter().collect();
            if ["NE", "SE", "SW", "NW"].contains(&s.to_uppercase().as_str()) {
                continue;
            }
            parse(&s, None, c)?;
            if of_char(a).is_some() || of_char(b).is_some() {
                for e in UTF8.into_iter().chain(ASCII).chain(['N', 'E', 's', 'w', ' ', '\n']) {
                    parse(&[a, b, e].iter().collect::<String>(), None, c)?;
                }
            }
        }
        for s in [format!("{a}"), format!(" {a}"), format!("{a} "), format!("{a}{a}{a}{a}")] {
            parse(&s, if s.chars().count() == 1 { of_char(a) } else { None }, c)?;
        }
        Ok(())
    });
    offsets!(k; isize i8 i16 i32 i64 i128);
    k.assume("the two-letter names of the diagonals are not parsed by the library; nothing is claimed about them");
    k.run()
}
