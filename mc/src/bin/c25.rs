//! C25: positions, bounded integers and directions are plain values.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}

/// Hash, by the hasher of the standard library and by one that keeps every byte.
fn hashed<T: Hash>(t: &T) -> (u64, Vec<u8>) {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    let mut b = Bytes(vec![]);
    t.hash(&mut b);
    (h.finish(), b.0)
}

/// Everything that compares two values, against the order of the model.
fn compare<T: Copy + Ord + Hash + Debug>(a: T, b: T, want: Ordering, c: &mut Ctx) -> Res {
    c.step();
    let all = [
        a.cmp(&b) == want,
        b.cmp(&a) == want.reverse(),
        a.partial_cmp(&b) == Some(want),
        (a == b) == want.is_eq(),
        (a != b) == want.is_ne(),
        (b == a) == want.is_eq(),
        (a < b) == want.is_lt(),
        (a <= b) == want.is_le(),
        (a > b) == want.is_gt(),
        (a >= b) == want.is_ge(),
        a.max(b) == if want.is_gt() { a } else { b },
        a.min(b) == if want.is_gt() { b } else { a },
        a.clamp(a.min(b), a.max(b)) == a && b.clamp(a.min(b), a.max(b)) == b && a.clamp(b, b) == b,
        {
            let mut x = a;
            #[allow(clippy::clone_on_copy)]
            x.clone_from(&b);
            x == b && hashed(&x) == hashed(&b) && x.clone() == b && x.cmp(&a) == want.reverse()
        },
        {
            let (mut x, mut y) = (Bytes(vec![]), Bytes(vec![]));
            Hash::hash_slice(&[a, b], &mut x);
            Hash::hash_slice(&[b, a], &mut y);
            want.is_ne() || x.0 == y.0
        },
    ];
    if all != [true; 15] {
        bad!("{a:?} against {b:?} is {want:?}, but cmp, cmp the other way round, partial_cmp, ==, !=, == the other way round, <, <=, >, >=, max, min, clamp, clone_from, hash_slice are right as follows: {all:?}");
    }
    if want.is_eq() && hashed(&a) != hashed(&b) {
        bad!("{a:?} made in different ways has different hashes");
    }
    // what values equal to each other can be part of
    if (Some(a) == Some(b)) != want.is_eq() || (a, 1).cmp(&(b, 1)) != want || [a, a].cmp(&[a, b]) != want {
        bad!("{a:?} against {b:?} inside an option, a tuple or an array differs");
    }
    Ok(())
}

/// A position, made in every way.
fn made<const X: u16, const Y: u16>(x: u16, y: u16, few: bool) -> Vec<Pos<X, Y>> {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let i = y as usize * (X as usize + 1) + x as usize;
    let mut v = vec![P::<X, Y>::new_unwrap(x, y)];
    v.extend(P::<X, Y>::new(x, y));
    v.extend(P::<X, Y>::try_from(i));
    if few {
        return v;
    }
    v.push(Pos((BoundedU16::new_unwrap(x), BoundedU16::new_unwrap(y))));
    v.extend(P::<X, Y>::try_from((x, y)));
    v.extend(P::<X, Y>::try_from(&(x, y)));
    v.extend(P::<X, Y>::try_from((x as i32, y as i32)));
    v.push(P::<X, Y>::from((BoundedU16::new_unwrap(x), BoundedU16::new_unwrap(y))));
    v.push(mk::<P<X, Y>>(x as i128, y as i128));
    // by way of the neighbours
    for d in COMPASS {
        let (dx, dy) = off(d);
        let (nx, ny) = (x as i64 - dx, y as i64 - dy);
        if let (Ok(nx), Ok(ny)) = (u16::try_from(nx), u16::try_from(ny)) {
            if let Ok(n) = P::<X, Y>::new(nx, ny) {
                v.extend(n + d);
            }
        }
    }
    // there and back
    v.push(v[0].flip_h().flip_h());
    v.push(v[0].flip_v().flip_v());
    #[allow(clippy::clone_on_copy)]
    v.push(v[0].clone());
    v
}

fn ord(a: (u16, u16), b: (u16, u16)) -> Ordering {
    a.0.cmp(&b.0).then(a.1.cmp(&b.1))
}

fn printed<T: Display>(t: &T, want: &str) -> Res {
    same!(t.to_string(), want, "printed form");
    same!(format!("<{t}>"), format!("<{want}>"), "printed form inside other text");
    Ok(())
}

/// One square, made in every way, against another one.
fn pairs<const X: u16, const Y: u16>(k: &mut Check) {
    let (w, h) = (X as u64 + 1, Y as u64 + 1);
    let n = w * h;
    let others = move |i: u64| -> Vec<u64> {
        if n <= 1300 {
            return (0..n).collect();
        }
        let mut v = std::collections::BTreeSet::new();
        for s in 0..33u32 {
            for d in [1u64 << s, w << s, h << s, (1u64 << s) + 1, (1u64 << s).wrapping_sub(1)] {
                v.insert((i + d) % n);
                v.insert((i + n - d % n) % n);
            }
        }
        // coordinates exchanged
        let (x, y) = (i % w, i / w);
        if y < w && x < h {
            v.insert(x * w + y);
        }
        v.insert(x);
        v.insert(y * w);
        v.insert(n - 1 - i);
        v.insert(i);
        v.into_iter().collect()
    };
    // every square of small grids; of large ones those around the limits of the integer types
    let squares: Vec<u64> = if n <= 40000 {
        (0..n).collect()
    } else {
        let line = |m: u64| -> Vec<u64> { (0..m).filter(|v| *v < 3 || m - v <= 3 || [15u64, 127, 255, 256, 511, 1023, 4095, 16384, 32767, 32768].iter().any(|z| z.abs_diff(*v) <= 1)).collect() };
        line(h).into_iter().flat_map(|y| line(w).into_iter().map(move |x| y * w + x)).collect()
    };
    let what = if n <= 1300 { "every square against every square" } else { "squares against those at distances around powers of two in the numbering" };
    k.fam(format!("positions {w}x{h}"), format!("{w}x{h}, {what}, made in every way: comparisons, hashes, printed form"), squares.len() as u64, move |i, c| {
        let i = squares[i as usize];
        c.state();
        let (x, y) = ((i % w) as u16, (i / w) as u16);
        c.note(|| format!("square ({x},{y})"));
        let a = made::<X, Y>(x, y, false);
        for p in &a {
            same!(p.tuple(), (x, y), "coordinates of {p:?}");
            compare(a[0], *p, Ordering::Equal, c)?;
            printed(p, &format!("({x},{y})"))?;
        }
        for j in others(i) {
            c.state();
            let (u, v) = ((j % w) as u16, (j / w) as u16);
            let want = ord((x, y), (u, v));
            c.outcome(&(want as i8));
            let b = made::<X, Y>(u, v, true);
            for (s, b) in b.iter().enumerate() {
                compare(a[s % a.len()], *b, want, c)?;
            }
        }
        Ok(())
    });
}

/// Positions as keys.
fn keys<const X: u16, const Y: u16>(k: &mut Check) {
    let (w, h) = (X as u64 + 1, Y as u64 + 1);
    k.fam(format!("keys {w}x{h}"), format!("{w}x{h}, every square as key of hash and tree collections, entered twice by different ways, in four orders; sorting"), 4, move |i, c| {
        let n = w * h;
        c.state();
        let all: Vec<(u16, u16)> = match i {
            0 => (0..n).map(|j| ((j % w) as u16, (j / w) as u16)).collect(),
            1 => (0..n).rev().map(|j| ((j % w) as u16, (j / w) as u16)).collect(),
            2 => (0..n).map(|j| ((j / h) as u16, (j % h) as u16)).collect(),
            _ => {
                // a stride prime to the size
                let s = (2..).find(|s| (1..=*s).all(|d| d == 1 || s % d != 0 || n % d != 0)).unwrap();
                (0..n).map(|j| j * s % n).map(|j| ((j % w) as u16, (j / w) as u16)).collect()
            }
        };
        let mut hs = HashSet::new();
        let mut bs = BTreeSet::new();
        let mut hm = HashMap::new();
        let mut bm = BTreeMap::new();
        for (j, (x, y)) in all.iter().enumerate() {
            c.step();
            let v = made::<X, Y>(*x, *y, true);
            let (p, q, r) = (v[0], v[1], v[2]);
            same!((hs.contains(&p), bs.contains(&p), hm.get(&p), bm.get(&p)), (false, false, None, None), "collections before {p:?} is entered");
            same!((hs.insert(p), hs.insert(q), hs.insert(r)), (true, false, false), "entering {p:?} into a hash set");
            same!((bs.insert(p), bs.insert(q), bs.insert(r)), (true, false, false), "entering {p:?} into a tree set");
            same!((hm.insert(q, j), hm.insert(p, j)), (None, Some(j)), "entering {p:?} into a hash map");
            same!((bm.insert(q, j), bm.insert(p, j)), (None, Some(j)), "entering {p:?} into a tree map");
        }
        let mut want = all.clone();
        want.sort();
        let got: Vec<(u16, u16)> = bs.iter().map(|p| p.tuple()).collect();
        if got != want {
            bad!("squares listed by a tree set differ from all squares by x and y: {:?} ...", got.iter().zip(&want).find(|(g, w)| g != w));
        }
        same!((hs.len(), hm.len(), bm.len()), (n as usize, n as usize, n as usize), "sizes of the collections");
        let mut v: Vec<Pos<X, Y>> = all.iter().map(|(x, y)| Pos::new_unwrap(*x, *y)).collect();
        v.sort();
        if v.iter().map(|p| p.tuple()).ne(want.iter().copied()) {
            bad!("sorted squares are not ordered by x and y");
        }
        for (j, (x, y)) in all.iter().enumerate() {
            let p = made::<X, Y>(*x, *y, true)[2];
            same!((hs.contains(&p), bs.contains(&p), hm.get(&p), bm.get(&p)), (true, true, Some(&j), Some(&j)), "collections with every square, asked for {p:?}");
        }
        c.outcome(&i);
        Ok(())
    });
}

/// Bounded integers: the values that are printed decide.
fn bounded<B>(k: &mut Check, name: &str, values: Vec<(String, B::Inner)>, make: fn(B::Inner) -> [B; 3])
where
    B: BoundedInt + Hash + Send + Sync + 'static,
    B::Inner: Copy + Ord + Send + Sync + 'static,
{
    k.fam(format!("bounded integers {name}"), format!("{name}: {} values against each other, made in three ways", values.len()), values.len() as u64, move |i, c| {
        let (text, v) = &values[i as usize];
        c.note(|| text.clone());
        for a in make(*v) {
            printed(&a, text)?;
            compare(make(*v)[0], a, Ordering::Equal, c)?;
        }
        for (_, u) in &values {
            c.state();
            let want = v.cmp(u);
            c.outcome(&(want as i8));
            let (a, b) = (make(*v), make(*u));
            for s in 0..3 {
                compare(a[s], b[(s + 1) % 3], want, c)?;
            }
        }
        Ok(())
    });
}

macro_rules! b {
    ($k:ident; $( $b:ident $t:ident [ $( $lo:expr, $hi:expr );+ ] )*) => { $( $({
        const LO: $t = $lo;
        const HI: $t = $hi;
        let (z, e) = (LO as i128, (HI as u128).min(i128::MAX as u128) as i128);
        let e = if HI < 0 as $t { HI as i128 } else { e };
        let mut v: BTreeSet<$t> = if (HI.abs_diff(LO) as u128) < 300 { (LO..=HI).collect() } else { interesting(&[z, e], 2).into_iter().filter_map(|x| <$t>::try_from(x).ok()).filter(|x| LO <= *x && *x <= HI).collect() };
        v.insert(LO);
        v.insert(HI);
        let mut v: Vec<$t> = v.into_iter().collect();
        if v.len() > 400 {
            let n = v.len();
            let s = n / 200;
            v = v.into_iter().enumerate().filter(|(i, _)| *i < 80 || n - i < 80 || i % s == 0).map(|(_, x)| x).collect();
        }
        bounded::<$b<LO, HI>>(&mut $k, &format!("{}<{}, {}>", stringify!($b), LO, HI), v.into_iter().map(|x| (x.to_string(), x)).collect(), |x| {
            let b = $b::<LO, HI>::new_unwrap(x);
            [b, $b::<LO, HI>::new(x).unwrap(), $b::<LO, HI>::try_from(x).unwrap()]
        });
    })+ )* };
}

fn main() {
    let mut k = Check::new("C25", "values and pairs of values", "pairs compared in every way");
    let deep = k.thorough();
    dims_small! { each_xy, pairs(&mut k) }
    dims_mid! { each_xy, pairs(&mut k) }
    dims_large! { each_xy, pairs(&mut k) }
    pairs::<65535, 65535>(&mut k);
    pairs::<65535, 65534>(&mut k);
    pairs::<65534, 65535>(&mut k);
    pairs::<255, 65535>(&mut k);
    pairs::<65535, 255>(&mut k);
    dims_small! { each_xy, keys(&mut k) }
    dims_mid! { each_xy, keys(&mut k) }
    each_xy! { keys(&mut k); (255, 255) (256, 255) (1000, 3) (3, 1000) (65535, 0) (0, 65535) }
    if deep {
        each_xy! { keys(&mut k); (65535, 1) (1, 65535) (299, 217) (1023, 511) }
    }
    b! { k;
        BoundedU8 u8 [0, 0; 0, 255; 3, 9; 100, 160]
        BoundedI8 i8 [0, 0; -128, 127; -5, 2; -9, -3; 3, 9]
        BoundedU16 u16 [0, 5; 0, 65535; 250, 260; 32766, 32769; 300, 40000]
        BoundedI16 i16 [-3, 3; -32768, 32767; -300, -290; 250, 260]
        BoundedU32 u32 [0, 5; 0, u32::MAX; 65530, 65540]
        BoundedI32 i32 [-3, 3; i32::MIN, i32::MAX; -70000, -69995]
        BoundedU64 u64 [0, 5; 0, u64::MAX; 4294967290, 4294967300]
        BoundedI64 i64 [-3, 3; i64::MIN, i64::MAX; -5000000000, -4999999990]
        BoundedIsize isize [-3, 3; isize::MIN, isize::MAX; -5000000000, -4999999990]
        BoundedU128 u128 [0, 5; 0, u128::MAX; (1 << 64) - 3, (1 << 64) + 3]
        BoundedI128 i128 [-3, 3; i128::MIN, i128::MAX; -(1 << 64) - 3, -(1 << 64) + 3]
    }
    k.fam("directions", "every pair of directions, made in every way", 64, |i, c| {
        let (a, b) = ((i / 8) as usize, (i % 8) as usize);
        c.state();
        let make = |i: usize| {
            let d = COMPASS[i];
            let (x, y) = off(d);
            [d, -(-d), Dir::try_from((x as i32, y as i32)).unwrap(), Dir::N + d, Dir::ALL8[i]]
        };
        let want = a.cmp(&b);
        c.outcome(&(want as i8));
        for x in make(a) {
            for y in make(b) {
                compare(x, y, want, c)?;
            }
        }
        Ok(())
    });
    k.fam("errors", "every pair of errors", 49, |i, c| {
        let e = [Error::OutOfBounds, Error::InvalidDirection, Error::DirParseError, Error::InvalidMovement, Error::Loop, Error::DestinationUnreachable, Error::Empty];
        let (a, b) = ((i / 7) as usize, (i % 7) as usize);
        c.state();
        c.step();
        same!(e[a] == e[b].clone(), a == b, "{:?} == {:?}", e[a], e[b]);
        same!(e[a].to_string() == e[b].to_string(), a == b, "texts of {:?} and {:?} alike", e[a], e[b]);
        c.outcome(&(a == b));
        Ok(())
    });
    k.run()
}
