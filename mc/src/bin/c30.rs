//! C30: every item put into a grid or map is owned exactly once: it is dropped
//! exactly once, also when a function of the user panics half way.
use mc::model::*;
use mc::*;
use sqrid::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

trait Pp: PosT + Copy + fmt::Debug + Ord + std::hash::Hash + Send + Sync + 'static {}
impl<P: PosT + Copy + fmt::Debug + Ord + std::hash::Hash + Send + Sync + 'static> Pp for P {}

/* ---------------------------------------------------- items that are counted */

#[derive(Default)]
struct Reg {
    /// for every item ever made: dropped?
    dropped: Vec<bool>,
    live: usize,
    err: Option<String>,
    /// calls of functions of the user while armed
    calls: u64,
    /// the call that panics
    at: u64,
    armed: bool,
    /// the call that panicked was a drop
    in_drop: bool,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    REG.with(|r| f(&mut r.borrow_mut()))
}

/// A function of the user is being called.
fn point(drop: bool) {
    let boom = reg(|r| {
        if !r.armed {
            return false;
        }
        r.calls += 1;
        if r.calls - 1 != r.at {
            return false;
        }
        r.in_drop = drop;
        true
    });
    if boom {
        panic!("planned");
    }
}

struct It {
    id: u32,
    val: u32,
}

impl It {
    fn of(val: u32) -> It {
        reg(|r| {
            r.dropped.push(false);
            r.live += 1;
            It { id: r.dropped.len() as u32 - 1, val }
        })
    }
}
impl Drop for It {
    fn drop(&mut self) {
        let id = self.id as usize;
        reg(|r| match r.dropped.get(id) {
            None => r.err = Some(format!("something that was never put there is dropped as an item (number {id})")),
            Some(true) => r.err = Some(format!("item {id} (value {}) is dropped twice", self.val)),
            Some(false) => {
                r.dropped[id] = true;
                r.live -= 1;
            }
        });
        if !std::thread::panicking() {
            point(true);
        }
    }
}
impl Default for It {
    fn default() -> It {
        point(false);
        It::of(0)
    }
}
impl Clone for It {
    fn clone(&self) -> It {
        point(false);
        It::of(self.val)
    }
}
impl PartialEq for It {
    fn eq(&self, o: &It) -> bool {
        point(false);
        self.val == o.val
    }
}
impl Eq for It {}
impl PartialOrd for It {
    fn partial_cmp(&self, o: &It) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for It {
    fn cmp(&self, o: &It) -> std::cmp::Ordering {
        point(false);
        self.val.cmp(&o.val)
    }
}
impl std::hash::Hash for It {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        point(false);
        self.val.hash(h)
    }
}
impl fmt::Display for It {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        point(false);
        write!(f, "{}", self.val)
    }
}
impl fmt::Debug for It {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}#{}", self.val, self.id)
    }
}

/// A sequence of items; asking for one is a call of the user.
fn feed<T>(v: Vec<T>, form: usize) -> Box<dyn Iterator<Item = T>>
where
    T: 'static,
{
    match form {
        0 => Box::new(v.into_iter().inspect(|_| point(false))),
        1 => Box::new(v.into_iter().filter(|_| {
            point(false);
            true
        })),
        _ => {
            let mut it = v.into_iter();
            Box::new(std::iter::from_fn(move || {
                point(false);
                it.next()
            }))
        }
    }
}

/* --------------------------------------------------------------- operations */

/// Lengths of the rows of nested rows.
type Rows = Vec<usize>;

#[derive(Clone, Debug)]
enum Op {
    // Making a grid
    Default,
    Collect(usize, usize),
    Nested(Rows),
    // Changing it
    Set(usize, usize),
    Extend(Vec<usize>, usize),
    ExtendNested(Rows),
    IterMut(usize),
    FlipH,
    FlipV,
    Cw,
    Cc,
    // Taking its items out
    Take,
    CloneOf,
    CloneKeep,
    CloneFrom,
    Inner,
    Into(usize, usize),
    // Reading it
    Read(usize),
}

struct Kind<P: PosT, const S: usize> {
    w: usize,
    h: usize,
    p: Vec<P>,
    cw: Option<fn(&mut Grid<It, P, S>)>,
    cc: Option<fn(&mut Grid<It, P, S>)>,
}

struct St<P: PosT, const S: usize> {
    g: Option<Box<Grid<It, P, S>>>,
    m: Vec<u32>,
    /// values that the operation under way may have put there
    may: Vec<(usize, u32)>,
    next: u32,
}

impl<P: PosT, const S: usize> St<P, S> {
    fn val(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
}

/// Without calls of the user counted
fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let was = reg(|r| std::mem::replace(&mut r.armed, false));
    let v = f();
    reg(|r| r.armed = was);
    v
}

/// Returns whether the grid is gone (a refused construction).
fn exec<P: Pp, const S: usize>(op: &Op, k: &Kind<P, S>, st: &mut St<P, S>) -> Result<(), Viol>
where
    Grid<It, P, S>: TryFrom<Vec<Vec<It>>>,
{
    st.may.clear();
    let (w, h) = (k.w, k.h);
    match op {
        Op::Default => {
            st.g = Some(Box::new(Grid::default()));
            st.m = vec![0; S];
        }
        Op::Collect(n, form) => {
            let vals: Vec<u32> = (0..*n).map(|_| st.val()).collect();
            let items: Vec<It> = vals.iter().map(|v| It::of(*v)).collect();
            let f = feed(items, *form);
            let g: Box<Grid<It, P, S>> = Box::new(f.collect());
            st.g = Some(g);
            st.m = vals;
            if *n != S {
                bad!("{n} items were accepted for {S} squares");
            }
        }
        Op::Nested(rows) => {
            let vals: Vec<Vec<u32>> = rows.iter().map(|n| (0..*n).map(|_| st.val()).collect()).collect();
            let items: Vec<Vec<It>> = vals.iter().map(|r| r.iter().map(|v| It::of(*v)).collect()).collect();
            let fits = rows.len() <= h && rows.iter().all(|n| *n <= w);
            match Grid::<It, P, S>::try_from(items) {
                Ok(g) => {
                    st.g = Some(Box::new(g));
                    st.m = vec![0; S];
                    for (y, r) in vals.iter().enumerate() {
                        for (x, v) in r.iter().enumerate() {
                            if x >= w || y >= h {
                                bad!("rows {rows:?} were accepted by {w}x{h}");
                            }
                            st.m[y * w + x] = *v;
                        }
                    }
                }
                Err(_) => {
                    if fits {
                        bad!("rows {rows:?} were refused by {w}x{h}");
                    }
                    st.g = None;
                }
            }
        }
        Op::Set(how, i) => {
            let v = st.val();
            let (i, p) = (*i, k.p[*i]);
            st.may.push((i, v));
            let it = It::of(v);
            let g = st.g.as_mut().unwrap();
            match how {
                0 => g[p] = it,
                1 => g[&p] = it,
                2 => *g.get_mut(&p) = it,
                3 => drop(std::mem::replace(g.get_mut(&p), it)),
                4 => *g.iter_mut().nth(i).unwrap() = it,
                5 => g.line_mut(p.tuple().1)[i % w] = it,
                6 => g.as_array_mut()[i] = it,
                7 => {
                    let a: &mut [It; S] = g.as_mut().as_mut();
                    a[i] = it
                }
                8 => {
                    let mut it = it;
                    std::mem::swap(&mut g[p], &mut it);
                }
                _ => *(&mut **g).into_iter().nth(i).unwrap() = it,
            }
            st.m[i] = v;
        }
        Op::Extend(cells, form) => {
            let vals: Vec<(usize, u32)> = cells.iter().map(|i| (*i, st.val())).collect();
            st.may = vals.clone();
            let items: Vec<(P, It)> = vals.iter().map(|(i, v)| (k.p[*i], It::of(*v))).collect();
            let f = feed(items, *form);
            st.g.as_mut().unwrap().extend(f);
            for (i, v) in vals {
                st.m[i] = v;
            }
        }
        Op::ExtendNested(rows) => {
            let vals: Vec<Vec<u32>> = rows.iter().map(|n| (0..*n).map(|_| st.val()).collect()).collect();
            let items: Vec<Vec<It>> = vals.iter().map(|r| r.iter().map(|v| It::of(*v)).collect()).collect();
            let mut fits = true;
            for (y, r) in vals.iter().enumerate() {
                for (x, v) in r.iter().enumerate() {
                    if x < w && y < h {
                        st.may.push((y * w + x, *v));
                    } else {
                        fits = false;
                    }
                }
            }
            let r = st.g.as_mut().unwrap().extend_from_vecvec(items);
            if r.is_ok() && !fits {
                bad!("rows {rows:?} were accepted by {w}x{h}");
            }
            if r.is_err() && fits && rows.len() <= h {
                bad!("rows {rows:?} were refused by {w}x{h}");
            }
            if r.is_ok() {
                for (i, v) in &st.may {
                    st.m[*i] = *v;
                }
            } else {
                // old or new, but nothing else
                let g = st.g.as_ref().unwrap();
                for i in 0..S {
                    let v = g.as_array()[i].val;
                    if v != st.m[i] && !st.may.contains(&(i, v)) {
                        bad!("after rows {rows:?} were refused square {i} holds {v}");
                    }
                    st.m[i] = v;
                }
            }
        }
        Op::IterMut(n) => {
            let vals: Vec<(usize, u32)> = (0..*n).map(|i| (i, st.val())).collect();
            st.may = vals.clone();
            let items: Vec<It> = vals.iter().map(|(_, v)| It::of(*v)).collect();
            for (c, v) in st.g.as_mut().unwrap().iter_mut().zip(feed(items, 0)) {
                *c = v;
            }
            for (i, v) in vals {
                if i < S {
                    st.m[i] = v;
                }
            }
        }
        Op::FlipH => {
            st.g.as_mut().unwrap().flip_h();
            let o = st.m.clone();
            for i in 0..S {
                st.m[i] = o[i / w * w + (w - 1 - i % w)];
            }
        }
        Op::FlipV => {
            st.g.as_mut().unwrap().flip_v();
            let o = st.m.clone();
            for i in 0..S {
                st.m[i] = o[(h - 1 - i / w) * w + i % w];
            }
        }
        Op::Cw => {
            k.cw.unwrap()(st.g.as_mut().unwrap());
            let o = st.m.clone();
            for i in 0..S {
                // (x, y) goes to (n-1-y, x)
                let (x, y) = (i % w, i / w);
                st.m[x * w + (w - 1 - y)] = o[i];
            }
        }
        Op::Cc => {
            k.cc.unwrap()(st.g.as_mut().unwrap());
            let o = st.m.clone();
            for i in 0..S {
                let (x, y) = (i % w, i / w);
                st.m[i] = o[x * w + (w - 1 - y)];
            }
        }
        Op::Take => {
            let g = st.g.as_mut().unwrap();
            let old = std::mem::take(&mut **g);
            for i in 0..S {
                same!(old.as_array()[i].val, st.m[i], "square {i} of the grid taken");
            }
            // (dropping the old grid may panic)
            for i in 0..S {
                st.may.push((i, 0));
            }
            drop(old);
            st.m = vec![0; S];
        }
        Op::CloneOf => {
            let c = Box::new((**st.g.as_ref().unwrap()).clone());
            // the original is dropped: by then the copy is there
            let old = st.g.replace(c);
            drop(old);
        }
        Op::CloneKeep => {
            let c = Box::new((**st.g.as_ref().unwrap()).clone());
            for i in 0..S {
                same!(c.as_array()[i].val, st.m[i], "square {i} of the copy");
            }
            drop(c);
        }
        Op::CloneFrom => {
            let mut c: Box<Grid<It, P, S>> = Box::new(Grid::default());
            c.as_mut().clone_from(st.g.as_ref().unwrap());
            let old = st.g.replace(c);
            drop(old);
        }
        Op::Inner => {
            let g = st.g.take().unwrap();
            let a = Box::new(g.into_inner());
            for i in 0..S {
                same!(a[i].val, st.m[i], "item {i} of into_inner");
            }
            let live = reg(|r| r.live);
            same!(live, S, "number of items after into_inner");
            drop(a);
        }
        Op::Into(front, back) => {
            let g = *st.g.take().unwrap();
            let mut it = Box::new(g.into_iter());
            for i in 0..*front {
                let v = it.next();
                same!(v.as_ref().map(|v| v.val), st.m.get(i).copied(), "item {i} of into_iter");
            }
            for i in 0..*back {
                let left = S.saturating_sub(front + i);
                let v = it.next_back();
                same!(v.as_ref().map(|v| v.val), if left > 0 { Some(st.m[S - 1 - i]) } else { None }, "item {i} from the back of into_iter");
            }
            let left = S.saturating_sub(front + back);
            let live = reg(|r| r.live);
            same!(live, left, "number of items that into_iter still holds");
            drop(it);
        }
        Op::Read(how) => {
            use std::hash::{Hash, Hasher};
            let g = st.g.as_ref().unwrap();
            match how {
                0 => same!(**g == **g, true, "equal to itself"),
                1 => same!((**g).cmp(&**g), std::cmp::Ordering::Equal, "compared to itself"),
                2 => {
                    let mut s = std::collections::hash_map::DefaultHasher::new();
                    (**g).hash(&mut s);
                    let _ = s.finish();
                }
                3 => {
                    let _ = format!("{g:3}");
                }
                4 => {
                    for (i, (p, v)) in g.iter_pos().enumerate() {
                        same!((xy(&p), v.val), (xy(&k.p[i]), st.m[i]), "item {i} of iter_pos");
                    }
                }
                _ => {
                    for (i, p) in k.p.iter().enumerate() {
                        same!(g[p].val, st.m[i], "square {i}");
                    }
                }
            }
        }
    }
    Ok(())
}

/// Everything is where it should be, and nowhere else.
fn audit<P: PosT, const S: usize>(st: &St<P, S>, ended: bool) -> Res {
    if let Some(e) = reg(|r| r.err.clone()) {
        bad!("{e}");
    }
    let mut seen = vec![];
    if let Some(g) = &st.g {
        for (i, it) in g.as_array().iter().enumerate() {
            match reg(|r| r.dropped.get(it.id as usize).copied()) {
                None => bad!("square {i} holds something that was never put there"),
                Some(true) => bad!("the item of square {i} (value {}) has been dropped", it.val),
                _ => {}
            }
            if !ended && it.val != st.m[i] {
                bad!("square {i} holds {}, expected {}", it.val, st.m[i]);
            }
            if ended && it.val != st.m[i] && !st.may.contains(&(i, it.val)) {
                bad!("square {i} holds {}: neither its old item ({}) nor one given for it", it.val, st.m[i]);
            }
            seen.push(it.id);
        }
        seen.sort();
        if let Some(d) = seen.windows(2).find(|v| v[0] == v[1]) {
            bad!("item {} is in two squares", d[0]);
        }
    }
    let (live, lenient) = reg(|r| (r.live, r.in_drop));
    if live < seen.len() || live > seen.len() && !lenient {
        bad!("{live} items are not dropped, but the grid holds {}", seen.len());
    }
    Ok(())
}

/// The history; the last operation panics at call `at` (if it gets there).
/// Returns the number of calls of the last operation.
fn history<P: Pp, const S: usize>(k: &Kind<P, S>, ops: &[&Op], at: u64, c: &mut Ctx) -> Result<u64, Viol> {
    reg(|r| *r = Reg::default());
    let mut st: St<P, S> = St { g: None, m: vec![], may: vec![], next: 0 };
    let r = run_ops(k, ops, at, &mut st, c);
    // whatever is left is dropped, and then nothing is left
    reg(|r| r.armed = false);
    match r {
        Err(e) => {
            // what is in a broken grid had better not be touched again
            std::mem::forget(st.g.take());
            Err(Viol::from(format!("{ops:?}{}: {}", if at == u64::MAX { String::new() } else { format!(", call {at} of the last one panics") }, e.detail)))
        }
        Ok(n) => {
            drop(st);
            c.step();
            let (live, lenient, err) = reg(|r| (r.live, r.in_drop, r.err.clone()));
            if let Some(e) = err {
                bad!("{ops:?} (call {at} panics), grid dropped: {e}");
            }
            if live > 0 && !lenient {
                bad!("{ops:?} (call {at} panics): {live} items are never dropped");
            }
            Ok(n)
        }
    }
}

fn run_ops<P: Pp, const S: usize>(k: &Kind<P, S>, ops: &[&Op], at: u64, st: &mut St<P, S>, c: &mut Ctx) -> Result<u64, Viol> {
    let mut calls = 0;
    for (j, op) in ops.iter().enumerate() {
        let last = j + 1 == ops.len();
        let making = matches!(op, Op::Default | Op::Collect(..) | Op::Nested(_));
        if !making && st.g.is_none() {
            return Ok(calls);
        }
        if last {
            reg(|r| {
                r.armed = true;
                r.at = at;
                r.calls = 0;
            });
        }
        let r = caught(|| exec(op, k, st));
        reg(|r| {
            r.armed = false;
            calls = r.calls;
        });
        c.step();
        match r {
            Ok(r) => {
                r?;
                audit(st, false)?;
            }
            Err(e) => {
                let planned = at != u64::MAX && last && e == "planned";
                let refused = matches!(op, Op::Collect(n, _) if *n != S);
                if !planned && !refused {
                    bad!("panicked: {e}");
                }
                audit(st, true)?;
                return Ok(calls);
            }
        }
    }
    Ok(calls)
}

/* ---------------------------------------------------------------- families */

fn shapes(w: usize, h: usize, all: bool) -> Vec<Rows> {
    let mut v: Vec<Rows> = vec![];
    if all {
        // every shape up to one row and one column too many
        for n in 0..=h + 1 {
            for i in 0..(w as u64 + 2).pow(n as u32) {
                v.push(digs(i, w as u64 + 2, n).into_iter().map(|d| d as usize).collect());
            }
        }
    } else {
        v.push(vec![]);
        v.push(vec![w; h]);
        v.push(vec![w; h + 1]);
        v.push(vec![w + 1; h]);
        v.push((0..h).map(|y| if y == h / 2 { w + 1 } else { w }).collect());
        v.push((0..h).map(|y| if y + 1 == h { w / 2 } else { w }).collect());
        v.push((0..h).map(|y| y % (w + 1)).collect());
        v.push((0..h).map(|y| if y == 0 { w } else { 0 }).collect());
    }
    v
}

fn makers(w: usize, h: usize, all: bool) -> Vec<Op> {
    let s = w * h;
    let mut v = vec![Op::Default];
    let mut lens: Vec<usize> = if all { (0..=s + 2).collect() } else { vec![0, 1, s / 2, s - 1, s, s + 1, s + 33] };
    lens.dedup();
    for n in lens {
        for form in 0..3 {
            v.push(Op::Collect(n, form));
        }
    }
    v.extend(shapes(w, h, all).into_iter().map(Op::Nested));
    v
}

fn changes(w: usize, h: usize, square: bool, all: bool) -> Vec<Op> {
    let s = w * h;
    let cells: Vec<usize> = if all { (0..s).collect() } else { let mut v = vec![0, w - 1, s / 2, s - 1]; v.sort(); v.dedup(); v };
    let mut v = vec![];
    for how in 0..10 {
        for i in &cells {
            v.push(Op::Set(how, *i));
        }
    }
    for form in 0..3 {
        v.push(Op::Extend(vec![], form));
        for i in &cells {
            v.push(Op::Extend(vec![*i], form));
            for j in &cells {
                v.push(Op::Extend(vec![*i, *j], form));
            }
        }
        v.push(Op::Extend((0..s).rev().collect(), form));
    }
    for r in shapes(w, h, all) {
        v.push(Op::ExtendNested(r));
    }
    for n in [0, 1, s, s + 1] {
        v.push(Op::IterMut(n));
    }
    v.extend([Op::FlipH, Op::FlipV, Op::Take, Op::CloneOf, Op::CloneKeep, Op::CloneFrom, Op::Inner]);
    if square {
        v.extend([Op::Cw, Op::Cc]);
    }
    let n = if all { s + 1 } else { 2 };
    for a in 0..=n {
        for b in 0..=n {
            v.push(Op::Into(a, b));
        }
    }
    for how in 0..6 {
        v.push(Op::Read(how));
    }
    v
}

/// The calls at which the last operation is made to panic.
fn points(n: u64) -> Vec<u64> {
    if n <= 2000 {
        (0..n).collect()
    } else {
        let mut v: Vec<u64> = (0..40).chain(n - 40..n).chain((0..n).step_by(n as usize / 60)).collect();
        v.sort();
        v.dedup();
        v
    }
}

fn grids<P: Pp, const S: usize>(
    k: &mut Check,
    name: &str,
    depth: usize,
    all: bool,
    rot: Option<(fn(&mut Grid<It, P, S>), fn(&mut Grid<It, P, S>))>,
) {
    let (_, x1, _, y1) = bounds::<P>();
    let (w, h) = (x1 as usize + 1, y1 as usize + 1);
    let p: Vec<P> = (0..S).map(|i| mk::<P>((i % w) as i128, (i / w) as i128)).collect();
    let kind = Kind { w, h, p, cw: rot.map(|r| r.0), cc: rot.map(|r| r.1) };
    let (mk, ch) = (makers(w, h, all), changes(w, h, rot.is_some(), all));
    // Case: how it is made, and the first change (if any)
    let nc = ch.len() as u64 + 1;
    let n = mk.len() as u64 * if depth > 1 { nc } else { 1 };
    let what = format!(
        "{} ways of making a grid{}; the last step panics at every call of a function of the user (default, clone, drop, iterator, comparison, hash, print){}",
        mk.len(),
        (1..depth).map(|_| format!(" x {} changes", ch.len())).collect::<String>(),
        if S <= 300 { "" } else { " (some, if there are more than 2000)" },
    );
    k.fam(format!("grid {name} depth {depth}"), what, n, move |i, c| {
        let (a, b) = if depth > 1 { (i / nc, i % nc) } else { (i, 0) };
        let mut hist = vec![&mk[a as usize]];
        if b > 0 {
            hist.push(&ch[b as usize - 1]);
        }
        c.note(|| format!("{hist:?}"));
        deeper(&kind, &ch, &mut hist, if b > 0 { depth - 2 } else { 0 }, c)
    });
}

/// The history, and all longer ones.
fn deeper<'a, P: Pp, const S: usize>(kind: &Kind<P, S>, ch: &'a [Op], hist: &mut Vec<&'a Op>, more: usize, c: &mut Ctx) -> Res {
    c.state();
    let n = history(kind, hist, u64::MAX, c)?;
    c.outcome(&n);
    for at in points(n) {
        history(kind, hist, at, c)?;
    }
    // (nothing comes after a refused sequence)
    if more > 0 && !matches!(hist[0], Op::Collect(n, _) if *n != S) {
        for z in ch {
            hist.push(z);
            deeper(kind, ch, hist, more - 1, c)?;
            hist.pop();
        }
    }
    Ok(())
}

/// Maps with items: hash and tree.
fn maps<P: Pp>(k: &mut Check, name: &str, depth: usize) {
    let (x0, x1, y0, y1) = bounds::<P>();
    let p: Vec<P> = (y0..=y1).flat_map(|y| (x0..=x1).map(move |x| mk::<P>(x, y))).collect();
    let n = p.len() as u64;
    k.fam(format!("maps {name}"), format!("every sequence of {depth} settings, panic at every call"), n.pow(depth as u32) * 2, move |i, c| {
        let tree = i % 2 == 1;
        let seq = digits(i / 2, &vec![n; depth]);
        c.note(|| format!("tree {tree}: {seq:?}"));
        c.state();
        let run = |at: u64| -> Result<u64, Viol> {
            reg(|r| {
                *r = Reg::default();
                r.armed = true;
                r.at = at;
            });
            fn with<M: MapPos<It, P, 0, 0>, P: PosT + Copy>(p: &[P], seq: &[u64]) -> Res {
                let mut m = M::new(It::of(0));
                let mut want = vec![0; p.len()];
                for (k, i) in seq.iter().enumerate() {
                    m.set(p[*i as usize], It::of(k as u32 + 1));
                    want[*i as usize] = k as u32 + 1;
                    for (j, q) in p.iter().enumerate() {
                        same!(m.get(q).val, want[j], "square {j} after {seq:?}");
                    }
                    let mut d: Vec<u64> = seq[..=k].to_vec();
                    d.sort();
                    d.dedup();
                    same!(reg(|r| r.live), d.len() + 1, "items held after {seq:?}");
                }
                Ok(())
            }
            let r = caught(|| if tree { with::<(BTreeMap<P, It>, It), P>(&p, &seq) } else { with::<(HashMap<P, It>, It), P>(&p, &seq) });
            let (calls, live, err, lenient) = reg(|r| {
                r.armed = false;
                (r.calls, r.live, r.err.clone(), r.in_drop)
            });
            match r {
                Ok(r) => r?,
                Err(e) if e == "planned" => {}
                Err(e) => bad!("panicked: {e}"),
            }
            if let Some(e) = err {
                bad!("{seq:?}: {e}");
            }
            if live > 0 && !lenient {
                bad!("{seq:?}: {live} items are never dropped");
            }
            Ok(calls)
        };
        let n = run(u64::MAX)?;
        c.step();
        for at in 0..n {
            run(at)?;
            c.step();
        }
        Ok(())
    });
}

/// The functions given to a search are dropped exactly once, too.
fn functions(k: &mut Check) {
    type P = Pos<3, 2>;
    type Q = sqrid_create!(3, 2, true);
    type Q4 = sqrid_create!(3, 2, false);
    const WAYS: usize = 16;
    k.fam("functions given to searches", "16 entry points x end or not x every question at which a function panics", WAYS as u64 * 3, move |i, c| {
        let (way, mode) = (i as usize % WAYS, i as usize / WAYS);
        c.note(|| format!("entry point {way}, mode {mode}"));
        c.state();
        let o = P::new(0, 0).unwrap();
        let d = if mode == 1 { P::new(0, 0).unwrap() } else { P::new(3, 2).unwrap() };
        let run = |at: u64| -> Result<u64, Viol> {
            reg(|r| {
                *r = Reg::default();
                r.armed = true;
                r.at = at;
            });
            let r = caught(|| {
                let (a, b) = (It::of(1), It::of(2));
                let go = move |p: P, e: Dir| {
                    assert!(a.val == 1);
                    point(false);
                    if mode == 2 && xy(&p).0 == 1 { None } else { (p + e).ok() }
                };
                let goal = move |p: P| {
                    assert!(b.val == 2);
                    point(false);
                    p == d
                };
                macro_rules! cost {
                    ($go:expr) => {{
                        let go = $go;
                        move |p: P, e: Dir| go(p, e).map(|p| (p, 1))
                    }};
                }
                match way {
                    0 => drop(Q::bfs_path(go, &o, goal)),
                    1 => drop(Q::bfs_path_hash(go, &o, goal)),
                    2 => drop(Q4::bfs_path_btree(go, &o, goal)),
                    3 => drop(Q4::bfs_path_grid(go, &o, goal)),
                    4 => drop((Q::astar_path(go, &o, &d), goal)),
                    5 => drop((Q4::astar_path_hash(go, &o, &d), goal)),
                    6 => drop((Q::astar_path_btree(go, &o, &d), goal)),
                    7 => drop((Q4::astar_path_grid(go, &o, &d), goal)),
                    8 => drop((Q::ucs_path(cost!(go), &o, &d), goal)),
                    9 => drop((Q4::ucs_path_hash(cost!(go), &o, &d), goal)),
                    10 => drop((Q::ucs_path_btree(cost!(go), &o, &d), goal)),
                    11 => drop((Q4::ucs_path_grid(cost!(go), &o, &d), goal)),
                    12 => drop((Q::bf_iter(go, &o).take(2).count(), goal)),
                    13 => drop((Q::bf_iter(go, &o).count(), goal)),
                    14 => drop((Q4::bf_iter_hash(go, &o).flatten().count(), goal)),
                    _ => drop((Q4::bf_iter_btree(go, &o).flatten().take(3).count(), goal)),
                }
            });
            let (calls, live, err, lenient) = reg(|r| {
                r.armed = false;
                (r.calls, r.live, r.err.clone(), r.in_drop)
            });
            match r {
                Err(e) if e != "planned" => bad!("panicked: {e}"),
                _ => {}
            }
            if let Some(e) = err {
                bad!("entry point {way}: {e}");
            }
            if live > 0 && !lenient {
                bad!("entry point {way}, panic at {at}: {live} functions are never dropped");
            }
            Ok(calls)
        };
        let n = run(u64::MAX)?;
        for at in 0..n {
            run(at)?;
            c.step();
        }
        c.outcome(&n);
        Ok(())
    });
}

fn main() {
    let mut k = Check::new(
        "C30",
        "histories of operations on a grid (or map) whose items are counted",
        "steps and panics (one at every call of a function of the user) after which every item was accounted for",
    );
    let deep = k.thorough();
    macro_rules! rect {
        ($d:expr, $all:expr; $($x:literal $y:literal),+) => { $(
            grids::<Pos<$x, $y>, { ($x + 1) * ($y + 1) }>(&mut k, &format!("{}x{}", $x + 1, $y + 1), $d, $all, None);
        )+ }
    }
    macro_rules! square {
        ($d:expr, $all:expr; $($x:literal),+) => { $(
            grids::<Pos<$x, $x>, { ($x + 1) * ($x + 1) }>(&mut k, &format!("{}x{}", $x + 1, $x + 1), $d, $all,
                Some((Grid::<It, Pos<$x, $x>, { ($x + 1) * ($x + 1) }>::rotate_cw, Grid::<It, Pos<$x, $x>, { ($x + 1) * ($x + 1) }>::rotate_cc)));
        )+ }
    }
    square!(if deep { 5 } else { 4 }, true; 0);
    rect!(if deep { 4 } else { 3 }, true; 1 0, 0 1);
    square!(3, true; 1);
    rect!(if deep { 3 } else { 2 }, true; 2 0, 0 2);
    rect!(2, true; 2 1, 1 2);
    square!(2, false; 2, 3, 4, 5, 6);
    rect!(2, false; 3 1, 1 3, 4 2, 30 0, 31 0, 32 0, 0 31, 0 32, 7 4, 4 7);
    square!(1, false; 10, 16, 17);
    rect!(1, false; 255 0, 256 0, 0 255, 0 256, 300 2, 2 300);
    grids::<Mix53, 15>(&mut k, "Mix53", 2, false, None);
    grids::<Sq44, 16>(&mut k, "Sq44", 2, false, None);
    grids::<Byte3, 768>(&mut k, "Byte3", 1, false, None);
    maps::<Pos<1, 0>>(&mut k, "2x1", if deep { 8 } else { 6 });
    maps::<Pos<1, 1>>(&mut k, "2x2", if deep { 6 } else { 4 });
    maps::<Pos<2, 2>>(&mut k, "3x3", 3);
    maps::<Off2>(&mut k, "Off2", 2);
    functions(&mut k);
    k.assume("std drops the rest of an array or vector when the drop of one item panics; if a drop panics, items may be leaked but not dropped twice");
    k.run()
}
