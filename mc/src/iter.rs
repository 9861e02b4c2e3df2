//! Protocol of iterators: whatever mixture of the provided methods takes items
//! from an iterator, it has to behave as the sequence it stands for.
use crate::*;
use std::fmt::Debug;

fn at<'a, T>(w: &'a [T], i: usize) -> Option<&'a T> {
    w.get(i)
}

/// `a` items taken one by one; then every other way of going on, each followed
/// by what is left. `w` is the whole sequence.
pub fn forward<T, U, I>(new: &dyn Fn() -> I, w: &[U], what: &dyn Fn() -> String, c: &mut Ctx) -> Res
where
    I: Iterator<Item = T>,
    T: PartialEq<U> + Debug,
    U: Debug,
{
    let n = w.len();
    let eq = |g: &Option<T>, w: Option<&U>| match (g, w) {
        (None, None) => true,
        (Some(g), Some(w)) => g == w,
        _ => false,
    };
    macro_rules! want {
        ($g:expr, $w:expr, $($how:tt)*) => {{
            let (g, w) = ($g, $w);
            c.step();
            if !eq(&g, w) {
                bad!("{}, {}: got {g:?}, expected {w:?}", what(), format!($($how)*));
            }
        }};
    }
    for a in 0..=n + 1 {
        c.state();
        let start = a.min(n);
        let begin = || {
            let mut it = new();
            for _ in 0..a {
                it.next();
            }
            it
        };
        same!(begin().count(), n - start, "{} count after {a}", what());
        want!(begin().last(), if start < n { w.last() } else { None }, "last after {a}");
        let v: Vec<T> = begin().collect();
        if v.len() != n - start || v.iter().zip(&w[start..]).any(|(g, w)| g != w) {
            bad!("{}, collect after {a}: got {v:?}, expected {:?}", what(), &w[start..]);
        }
        let mut i = start;
        let mut good = true;
        begin().for_each(|g| {
            good &= i < n && g == w[i];
            i += 1;
        });
        same!((good, i), (true, n), "{} for_each after {a}", what());
        let i = begin().fold(start, |i, g| if i < n && g == w[i] { i + 1 } else { usize::MAX / 2 });
        same!(i, n, "{} fold after {a}", what());
        c.add(0, 5);
        for k in 0..=n - start + 2 {
            let mut it = begin();
            want!(it.nth(k), at(w, start + k), "nth({k}) after {a}");
            want!(it.next(), at(w, start + k + 1), "next after nth({k}) after {a}");
            want!(it.nth(1), at(w, start + k + 3), "nth(1) and so on after nth({k}) after {a}");
            want!(it.nth(0), at(w, start + k + 4), "nth(0) and so on after nth({k}) after {a}");
            want!(it.last(), if start + k + 5 < n { w.last() } else { None }, "last after nth({k}) and so on after {a}");
            let mut it = begin();
            it.nth(k);
            same!(it.count(), n.saturating_sub(start + k + 1), "{} count after nth({k}) after {a}", what());
            // stops in the middle
            let mut it = begin();
            let mut i = start;
            let mut good = true;
            let mut left = k;
            let r = it.try_for_each(|g| {
                good &= i < n && g == w[i];
                i += 1;
                if left == 0 {
                    return Err(());
                }
                left -= 1;
                Ok(())
            });
            same!((good, i, r.is_err()), (true, n.min(start + k + 1), start + k < n), "{} try_for_each stopping at item {k} after {a}", what());
            want!(it.next(), at(w, start + k + 1), "next after try_for_each stopping at item {k} after {a}");
            let mut it = begin();
            let mut left = k;
            let p = it.position(|_| {
                left = left.wrapping_sub(1);
                left == usize::MAX
            });
            same!(p, if start + k < n { Some(k) } else { None }, "{} position after {a}", what());
            want!(it.next(), at(w, start + k + 1), "next after position {k} after {a}");
            want!(begin().skip(k).next(), at(w, start + k), "skip({k}) after {a}");
            let mut it = begin();
            let m = it.by_ref().take(k).count();
            same!(m, k.min(n - start), "{} take({k}) after {a}", what());
            want!(it.next(), at(w, start + k), "next after take({k}) after {a}");
            if k > 0 {
                let m = begin().step_by(k).enumerate().fold(Some(0), |m: Option<usize>, (j, g)| m.filter(|_| start + j * k < n && g == w[start + j * k]).map(|m| m + 1));
                same!(m, Some((n - start).div_ceil(k)), "{} step_by({k}) after {a}", what());
            }
            c.add(1, 12);
        }
        let mut it = begin();
        while it.next().is_some() {}
        for k in [0, 1, usize::MAX] {
            want!(it.nth(k), None, "nth({k}) beyond the end");
        }
        want!(begin().nth(usize::MAX), None, "nth of the largest number after {a}");
    }
    Ok(())
}

/// The same with items taken from both ends.
pub fn both<T, U, I>(new: &dyn Fn() -> I, w: &[U], what: &dyn Fn() -> String, c: &mut Ctx) -> Res
where
    I: DoubleEndedIterator<Item = T>,
    T: PartialEq<U> + Debug,
    U: Debug + Clone,
{
    forward(new, w, what, c)?;
    let back: Vec<U> = w.iter().rev().cloned().collect();
    forward(&|| new().rev(), &back, &|| format!("{}, reversed", what()), c)?;
    let n = w.len();
    macro_rules! want {
        ($g:expr, $w:expr, $($how:tt)*) => {{
            let (g, w): (Option<T>, Option<&U>) = ($g, $w);
            c.step();
            if match (&g, w) { (None, None) => false, (Some(g), Some(w)) => g != w, _ => true } {
                bad!("{}, {}: got {g:?}, expected {w:?}", what(), format!($($how)*));
            }
        }};
    }
    for a in 0..=n {
        for b in 0..=n - a {
            let begin = |flip: bool| {
                let mut it = new();
                for _ in 0..if flip { 0 } else { a } {
                    it.next();
                }
                for _ in 0..b {
                    it.next_back();
                }
                for _ in 0..if flip { a } else { 0 } {
                    it.next();
                }
                it
            };
            let flip = (a + b) % 2 == 1;
            let m = &w[a..n - b];
            let len = m.len();
            c.state();
            same!(begin(flip).count(), len, "{} count after {a} and {b}", what());
            want!(begin(flip).last(), m.last(), "last after {a} and {b}");
            want!(begin(!flip).next(), m.first(), "next after {a} and {b}");
            want!(begin(flip).next_back(), m.last(), "next_back after {a} and {b}");
            for k in 0..=len + 1 {
                let from_back = |k: usize| if k < len { Some(&m[len - 1 - k]) } else { None };
                let mut it = begin(flip);
                want!(it.nth(k), m.get(k), "nth({k}) after {a} and {b}");
                want!(it.next_back(), if k + 1 < len { m.last() } else { None }, "next_back after nth({k}) after {a} and {b}");
                let mut it = begin(!flip);
                want!(it.nth_back(k), from_back(k), "nth_back({k}) after {a} and {b}");
                want!(it.next(), if k + 1 < len { m.first() } else { None }, "next after nth_back({k}) after {a} and {b}");
                let mut it = begin(flip);
                let mut left = k;
                let p = it.rfind(|_| {
                    left = left.wrapping_sub(1);
                    left == usize::MAX
                });
                want!(p, from_back(k), "rfind of item {k} after {a} and {b}");
                want!(it.next(), if k + 1 < len { m.first() } else { None }, "next after rfind of item {k} after {a} and {b}");
                c.state();
            }
            let i = begin(flip).rfold(len, |i, g| if i > 0 && i <= len && g == m[i - 1] { i - 1 } else { usize::MAX });
            same!(i, 0, "{} rfold after {a} and {b}", what());
        }
    }
    Ok(())
}

/// What asks for the smallest, the largest and so on of what is left.
pub fn extremes<T, I>(new: &dyn Fn() -> I, what: &dyn Fn() -> String, c: &mut Ctx) -> Res
where
    I: Iterator<Item = T>,
    T: Ord + Copy + Debug,
{
    let n = new().count();
    for a in 0..=n + 1 {
        let begin = || {
            let mut it = new();
            for _ in 0..a {
                it.next();
            }
            it
        };
        let mut it = begin();
        let mut left = vec![];
        while let Some(i) = it.next() {
            left.push(i);
        }
        c.state();
        c.add(0, 12);
        let mut sorted = left.clone();
        sorted.sort();
        same!(begin().max(), sorted.last().copied(), "{} max after {a}", what());
        same!(begin().min(), sorted.first().copied(), "{} min after {a}", what());
        same!(begin().max_by(|a, b| b.cmp(a)), sorted.first().copied(), "{} max_by after {a}", what());
        same!(begin().min_by(|a, b| b.cmp(a)), sorted.last().copied(), "{} min_by after {a}", what());
        same!(begin().is_sorted(), left.windows(2).all(|w| w[0] <= w[1]), "{} is_sorted after {a}", what());
        same!(begin().cmp(left.iter().copied()), std::cmp::Ordering::Equal, "{} cmp after {a}", what());
        same!(begin().eq(left.iter().copied()), true, "{} eq after {a}", what());
        same!(begin().reduce(|_, b| b), left.last().copied(), "{} reduce after {a}", what());
        let (even, odd): (Vec<(usize, T)>, Vec<(usize, T)>) = begin().enumerate().partition(|(i, _)| i % 2 == 0);
        same!(even.len() + odd.len(), sorted.len(), "{} partition after {a}", what());
        if even.iter().chain(odd.iter()).any(|(i, t)| left.get(*i) != Some(t)) {
            bad!("{} partition after {a}: {even:?} and {odd:?}", what());
        }
        for i in sorted.iter().take(3).chain(sorted.iter().rev().take(3)) {
            let mut it = begin();
            same!(it.any(|x| x == *i), true, "{} any {i:?} after {a}", what());
            same!(begin().all(|x| x != *i), false, "{} all but {i:?} after {a}", what());
            let mut it2 = begin();
            same!(it2.find(|x| x == i), Some(*i), "{} find {i:?} after {a}", what());
            same!(it.next(), it2.next(), "{} next after any and find {i:?} after {a}", what());
        }
    }
    Ok(())
}
