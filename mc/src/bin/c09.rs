//! C09: bounded integers hold only values within their bounds and compute exactly.
use mc::model::interesting;
use mc::*;
use sqrid::*;
use std::cmp::Ordering;

/// An integer of the model: sign and magnitude, larger than any built-in type.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Z {
    neg: bool,
    mag: u128,
}

impl Z {
    fn parse(s: &str) -> Z {
        match s.strip_prefix('-') {
            Some(m) => Z { neg: true, mag: m.parse().unwrap() },
            None => Z { neg: false, mag: s.parse().unwrap() },
        }
    }
    /// None: beyond every type
    fn add(self, o: Z) -> Option<Z> {
        if self.neg == o.neg {
            return Some(Z { neg: self.neg, mag: self.mag.checked_add(o.mag)? });
        }
        let (p, m) = if self.neg { (o.mag, self.mag) } else { (self.mag, o.mag) };
        Some(if p >= m { Z { neg: false, mag: p - m } } else { Z { neg: true, mag: m - p } })
    }
    fn minus(self) -> Z {
        Z { neg: !self.neg && self.mag != 0, mag: self.mag }
    }
}

impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}

/// A built-in integer type.
trait Int: BoundedInt<Inner = Self> + std::hash::Hash + std::panic::UnwindSafe + Send + Sync + 'static {
    fn z(self) -> Z;
    fn name() -> &'static str;
    /// All values of 8-bit types; otherwise limits, powers of two, around the given values
    fn values(around: &[Z]) -> Vec<Self>;
}

macro_rules! int { ($($t:ident)*) => { $( impl Int for $t {
    fn z(self) -> Z { Z::parse(&self.to_string()) }
    fn name() -> &'static str { stringify!($t) }
    fn values(around: &[Z]) -> Vec<$t> {
        if <$t>::BITS == 8 {
            return (<$t>::MIN..=<$t>::MAX).collect();
        }
        let a: Vec<i128> = around.iter().filter(|z| z.mag <= i128::MAX as u128).map(|z| if z.neg { -(z.mag as i128) } else { z.mag as i128 }).collect();
        let mut v: std::collections::BTreeSet<$t> = interesting(&a, 2).into_iter().filter_map(|x| <$t>::try_from(x).ok()).collect();
        for d in 0..4 {
            v.insert(<$t>::MAX - d);
            v.insert(<$t>::MIN + d);
        }
        v.into_iter().collect()
    }
} )* } }
int!(usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);

fn judge<B: BoundedInt + PartialEq>(r: &Option<B>, want: Option<Z>, lim: (Z, Z), what: &dyn Fn() -> String, c: &mut Ctx) -> Res
where
    B::Inner: Int,
{
    c.step();
    let want = want.filter(|w| lim.0 <= *w && *w <= lim.1);
    let got = r.map(|b| b.into_inner().z());
    if got != want {
        bad!("{}: got {r:?}, expected {want:?} (bounds {} to {})", what(), B::MIN, B::MAX);
    }
    Ok(())
}

fn refusal<B>(r: Result<B, Error>) -> Result<Option<B>, Viol> {
    match r {
        Ok(b) => Ok(Some(b)),
        Err(Error::OutOfBounds) => Ok(None),
        Err(e) => Err(format!("refused with {e:?} instead of the out-of-bounds error").into()),
    }
}

/// Conversion from one source type.
fn convert<B: BoundedInt + 'static, S: Int + 'static>(lim: (Z, Z), c: &mut Ctx) -> Res
where
    B::Inner: Int,
    B: TryFrom<S>,
{
    for v in S::values(&[lim.0, lim.1]) {
        c.state();
        let r = match B::try_from(v) {
            Ok(b) => Some(b),
            // built-in types have an error type of their own
            Err(e) => match (&e as &dyn std::any::Any).downcast_ref::<Error>() {
                None | Some(Error::OutOfBounds) => None,
                Some(e) => bad!("try_from {} {v} refused with {e:?} instead of the out-of-bounds error", S::name()),
            },
        };
        judge(&r, Some(v.z()), lim, &|| format!("try_from {} {v}", S::name()), c)?;
    }
    Ok(())
}

/// Values of the type to combine: all if there are few, the limits and their
/// surroundings, zero, powers of two
fn members<B: BoundedInt>(lim: (Z, Z), most: usize) -> Vec<(B, Z)>
where
    B::Inner: Int,
    B: TryFrom<B::Inner>,
{
    let v: Vec<(B, Z)> = <B::Inner as Int>::values(&[lim.0, lim.1])
        .into_iter()
        .filter(|v| lim.0 <= v.z() && v.z() <= lim.1)
        .filter_map(|v| B::try_from(v).ok().map(|b| (b, v.z())))
        .collect();
    if v.len() <= most {
        return v;
    }
    let n = v.len();
    (0..n).filter(|i| *i < most / 4 || *i >= n - most / 4 || i % (2 * n / most + 1) == 0).map(|i| v[i]).collect()
}

/// One interleaving of front and back of an iteration over `want`.
fn ends<B: BoundedInt>(mut it: BoundedIntIterator<B>, want: &[B], choice: impl Fn(usize) -> bool, n: usize, c: &mut Ctx) -> Res {
    let (mut lo, mut hi) = (0, want.len());
    for i in 0..n {
        let front = choice(i);
        c.step();
        let g = if front { it.next() } else { it.next_back() };
        let w = if lo >= hi {
            None
        } else if front {
            lo += 1;
            Some(want[lo - 1])
        } else {
            hi -= 1;
            Some(want[hi])
        };
        if g != w {
            bad!("iteration over {want:?}, choice {i} ({}): got {g:?}, expected {w:?}", if front { "front" } else { "back" });
        }
    }
    c.state();
    Ok(())
}

/// Everything about a type of the trait, built-in or bounded.
fn any<B: BoundedInt + 'static + Send + Sync>(k: &mut Check, name: String, lim: (Z, Z))
where
    B::Inner: Int,
    B: TryFrom<B::Inner>,
{
    k.fam(format!("conversions into {name}"), "from each of the 12 integer types: every value of 8-bit types; limits, powers of two and the bounds, with neighbours, of the others", 12, move |i, c| match i {
        0 => convert::<B, usize>(lim, c),
        1 => convert::<B, u8>(lim, c),
        2 => convert::<B, u16>(lim, c),
        3 => convert::<B, u32>(lim, c),
        4 => convert::<B, u64>(lim, c),
        5 => convert::<B, u128>(lim, c),
        6 => convert::<B, isize>(lim, c),
        7 => convert::<B, i8>(lim, c),
        8 => convert::<B, i16>(lim, c),
        9 => convert::<B, i32>(lim, c),
        10 => convert::<B, i64>(lim, c),
        _ => convert::<B, i128>(lim, c),
    });
    let ms = members::<B>(lim, k.pick(260, 1500));
    assert!(!ms.is_empty());
    k.fam(format!("operations of {name}"), format!("all pairs of {} values: sum, difference, order; increment, decrement, default, limits", ms.len()), ms.len() as u64, move |i, c| {
        let (a, za) = ms[i as usize];
        let one = Z { neg: false, mag: 1 };
        c.state();
        judge(&a.inc(), za.add(one), lim, &|| format!("inc of {za:?}"), c)?;
        judge(&a.dec(), za.add(one.minus()), lim, &|| format!("dec of {za:?}"), c)?;
        let u: Result<usize, _> = a.try_into();
        let want = if za.neg || za.mag > usize::MAX as u128 { None } else { Some(za.mag as usize) };
        same!(u.ok(), want, "{za:?} as usize");
        same!(BoundedInt::as_ref(&a).z(), za, "as_ref of {za:?}");
        same!(a.to_string(), a.into_inner().to_string(), "display of {za:?}");
        c.add(0, 3);
        if i == 0 {
            let d = B::default();
            let zd = d.into_inner().z();
            if zd < lim.0 || zd > lim.1 {
                bad!("default {d:?} is out of bounds");
            }
            let zero = Z { neg: false, mag: 0 };
            let near = if lim.0 > zero {
                lim.0
            } else if lim.1 < zero {
                lim.1
            } else {
                zero
            };
            same!(zd, near, "default of {lim:?}");
            same!((B::MIN.into_inner().z(), B::MAX.into_inner().z()), lim, "MIN, MAX");
            c.add(0, 2);
        }
        for &(b, zb) in &ms {
            c.state();
            judge(&a.checked_add(b), za.add(zb), lim, &|| format!("{za:?} + {zb:?}"), c)?;
            judge(&a.checked_sub(b), za.add(zb.minus()), lim, &|| format!("{za:?} - {zb:?}"), c)?;
            if a.cmp(&b) != za.cmp(&zb) || a.partial_cmp(&b) != Some(za.cmp(&zb)) || (a == b) != (za == zb) || (a < b) != (za < zb) || a.max(b) != (if za >= zb { a } else { b }) {
                bad!("order of {za:?} and {zb:?}");
            }
            c.step();
        }
        c.note(|| format!("{za:?} against {} values", ms.len()));
        Ok(())
    });
    // The number of values, if it is small enough to go through them
    let count = lim.1.add(lim.0.minus()).filter(|z| z.mag < 70_000).map(|z| z.mag as usize + 1);
    let all: Option<Vec<B>> = count.map(|n| {
        (0..n)
            .map(|i| {
                let z = lim.0.add(Z { neg: false, mag: i as u128 }).unwrap();
                let s = format!("{}{}", if z.neg { "-" } else { "" }, z.mag);
                let v = B::try_from(s.parse::<i128>().unwrap_or(0)).ok();
                v.or_else(|| B::try_from(z.mag).ok()).expect("value within bounds")
            })
            .collect()
    });
    if let Some(all) = all {
        let n = all.len();
        let deep = k.pick(9, 14);
        if n <= deep {
            let a = all.clone();
            k.fam(format!("iteration of {name}, all interleavings"), format!("{n} values, all 2^{} sequences of front and back", n + 3), 1 << (n + 3), move |i, c| ends(B::iter(), &a, |j| i >> j & 1 == 0, n + 3, c));
        }
        if n <= k.pick(257, 1000) {
            let a = all.clone();
            k.fam(format!("iteration of {name}, two changes of end"), format!("{n} values, all sequences that change ends at most twice, starting from either"), 2 * (n as u64 + 1), move |i, c| {
                let (p, first) = (i as usize / 2, i & 1 == 0);
                for q in p..=n {
                    ends(B::iter(), &a, |j| (j < p || j >= q) == first, n + 3, c)?;
                }
                Ok(())
            });
        }
        let most = k.pick(14, 40);
        let a = all.clone();
        k.fam(format!("iteration of {name}, mixed calls"), format!("all values (if at most {most}), and the first, middle and last 5: items taken one by one from both ends, then every way of going on: nth, nth_back, skip, step_by, take, find, fold, count, last, max, min..., up to and beyond the end, and then the rest"), 1, move |_, c| {
            if n <= most {
                iter::both(&B::iter, &a, &|| "values".into(), c)?;
                iter::extremes(&B::iter, &|| "values".into(), c)?;
            }
            for m in 0..=n.min(5) {
                for s in [0, (n - m) / 2, n - m] {
                    if m > 0 {
                        iter::extremes(&|| BoundedIntIterator::new(a[s], a[s + m - 1]).rev(), &|| format!("{m} values from {:?}, reversed", a[s]), c)?;
                        iter::both(&|| BoundedIntIterator::new(a[s], a[s + m - 1]), &a[s..s + m], &|| format!("{m} values from {:?}", a[s]), c)?;
                    }
                }
            }
            Ok(())
        });
        let few: Vec<usize> = if n <= 17 { (0..n).collect() } else { vec![0, 1, 2, n / 2, n - 3, n - 2, n - 1] };
        k.fam(format!("iteration of parts of {name}"), "between every two values (of larger types: next to the limits and the middle), forwards, backwards and alternating", 1, move |_, c| {
            for &s in &few {
                for &e in few.iter().filter(|e| **e >= s) {
                    let w = &all[s..=e];
                    let new = || BoundedIntIterator::new(all[s], all[e]);
                    ends(new(), w, |_| true, w.len() + 3, c)?;
                    ends(new(), w, |_| false, w.len() + 3, c)?;
                    ends(new(), w, |i| i % 2 == 0, w.len() + 3, c)?;
                    ends(new(), w, |i| i % 3 == 0, w.len() + 3, c)?;
                    same!(new().size_hint().0 <= w.len() && new().size_hint().1.map_or(true, |h| h >= w.len()), true, "size hint");
                    same!(new().rev().last(), Some(all[s]), "last of reversed");
                    same!(new().count(), w.len(), "count");
                    same!(new().nth(w.len() - 1), Some(all[e]), "nth");
                }
            }
            Ok(())
        });
    } else {
        k.fam(format!("iteration of {name}, both ends"), "the first and last 3000 values, alternating in all patterns of period 1 to 6", 126, move |i, c| {
            let (mut len, mut bits) = (1, i);
            while bits >= 1 << len {
                bits -= 1 << len;
                len += 1;
            }
            let mut it = B::iter();
            let (mut f, mut b) = (Some(lim.0), Some(lim.1));
            for j in 0..3000 {
                let front = bits >> (j % len) & 1 == 0;
                let (g, w) = if front {
                    let w = f.unwrap();
                    f = w.add(Z { neg: false, mag: 1 });
                    (it.next(), w)
                } else {
                    let w = b.unwrap();
                    b = w.add(Z { neg: true, mag: 1 });
                    (it.next_back(), w)
                };
                c.step();
                same!(g.map(|g| g.into_inner().z()), Some(w), "item {j} (front: {front})");
            }
            c.state();
            Ok(())
        });
    }
}

/// What only the bounded types have.
fn bounded<B: BoundedInt + 'static + Send + Sync>(
    k: &mut Check,
    lim: (Z, Z),
    new: fn(B::Inner) -> Result<B, Error>,
    unwrap: fn(B::Inner) -> B,
    inner: fn(B) -> B::Inner,
    from: fn(B) -> B::Inner,
) where
    B::Inner: Int,
    B: TryFrom<B::Inner, Error = Error>,
{
    let name = std::any::type_name::<B>().replace("sqrid::sqrid::boundedint::", "");
    k.fam(format!("construction of {name}"), "every value of 8-bit types; limits, powers of two and the bounds, with neighbours, of the others", 1, move |_, c| {
        for v in <B::Inner as Int>::values(&[lim.0, lim.1]) {
            c.state();
            let z = v.z();
            judge(&refusal(new(v))?, Some(z), lim, &|| format!("new({z:?})"), c)?;
            judge(&refusal(B::try_from(v))?, Some(z), lim, &|| format!("try_from {z:?}"), c)?;
            judge(&caught(move || unwrap(v)).ok(), Some(z), lim, &|| format!("new_unwrap({z:?})"), c)?;
            if let Ok(b) = new(v) {
                same!(inner(b).z(), z, "into_inner");
                same!(from(b).z(), z, "into the built-in type");
                same!(b.into_inner().z(), z, "BoundedInt::into_inner");
                same!(format!("{b:?}"), format!("{b}"), "Debug and Display");
                c.add(0, 4);
            }
        }
        let zero = Z { neg: false, mag: 0 };
        let one = Z { neg: false, mag: 1 };
        if lim.0 <= zero && zero <= lim.1 {
            same!(B::from(false).into_inner().z(), zero, "from false");
        }
        if lim.0 <= one && one <= lim.1 {
            same!(B::from(true).into_inner().z(), one, "from true");
            same!(B::one().into_inner().z(), one, "one()");
        }
        Ok(())
    });
    any::<B>(k, name, lim);
}

macro_rules! b {
    ($k:expr, $n:ident, $t:ident; $( $lo:expr, $hi:expr );* ) => { $( {
        type B = $n<{ $lo }, { $hi }>;
        bounded::<B>(&mut $k, (<$t as Int>::z($lo), <$t as Int>::z($hi)), B::new, B::new_unwrap, B::into_inner, <$t>::from);
    } )* };
}

macro_rules! plain { ($k:expr; $($t:ident)*) => { $( any::<$t>(&mut $k, stringify!($t).into(), (<$t as Int>::z($t::MIN), <$t as Int>::z($t::MAX))); )* } }

fn main() {
    let mut k = Check::new("C09", "values, pairs of values, interleavings", "constructions, conversions, operations and iterator calls compared with the model");
    b!(k, BoundedU8, u8; 0, 0; 0, 1; 1, 1; 0, 7; 1, 8; 2, 5; 3, 9; 5, 16; 100, 107; 120, 135; 127, 128; 250, 255; 255, 255; 0, 254; 0, 255; 1, 255);
    b!(k, BoundedI8, i8; 0, 0; 0, 1; -1, 1; -5, 2; 1, 8; 2, 5; -9, -3; -128, -121; 120, 127; -128, -128; 127, 127; -1, -1; -128, 127; -127, 126; 0, 127; -128, -1);
    b!(k, BoundedU16, u16; 0, 0; 0, 2; 5, 9; 0, 255; 1, 256; 250, 260; 32766, 32769; 65530, 65535; 0, 65534; 0, 65535; 65535, 65535; 300, 40000);
    b!(k, BoundedI16, i16; 0, 0; -3, 3; 5, 9; -300, -290; -32768, -32764; 32764, 32767; -129, 128; -32768, 32767; -32768, -1; 1, 32767);
    b!(k, BoundedU32, u32; 0, 0; 2, 6; 65530, 65540; u32::MAX - 5, u32::MAX; 0, u32::MAX; 0, u32::MAX - 1; 2147483646, 2147483649);
    b!(k, BoundedI32, i32; 0, 0; -3, 3; -70000, -69995; i32::MIN, i32::MIN + 4; i32::MAX - 4, i32::MAX; i32::MIN, i32::MAX; -65536, 65536);
    b!(k, BoundedU64, u64; 0, 0; 2, 6; 4294967290, 4294967300; u64::MAX - 5, u64::MAX; 0, u64::MAX; 1, u64::MAX - 1; 9223372036854775806, 9223372036854775809);
    b!(k, BoundedI64, i64; 0, 0; -3, 3; -5000000000, -4999999990; i64::MIN, i64::MIN + 4; i64::MAX - 4, i64::MAX; i64::MIN, i64::MAX; i64::MIN, -1);
    b!(k, BoundedIsize, isize; 0, 0; -3, 3; isize::MIN, isize::MIN + 4; isize::MAX - 4, isize::MAX; isize::MIN, isize::MAX; -1, 100000);
    b!(k, BoundedU128, u128; 0, 0; 2, 6; u128::MAX - 5, u128::MAX; 0, u128::MAX; (1 << 127) - 3, (1 << 127) + 3; (1 << 64) - 2, (1 << 64) + 2);
    b!(k, BoundedI128, i128; 0, 0; -3, 3; i128::MIN, i128::MIN + 4; i128::MAX - 4, i128::MAX; i128::MIN, i128::MAX; -(1 << 64) - 2, -(1 << 64) + 2);
    plain!(k; usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    k.assume("conversion from bool and the value one() are only judged for bounds that include them; iterators are created with start not after end");
    k.run()
}
