//! Runs a case on the real crate and evaluates the postconditions of its property against a plain list.
use crate::case::*;
use crate::world::*;
use rusty_rtree::bounds::Bounded;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub type Res = Result<(), String>;
type Tree<W> = RTree<<W as World>::B, TK<W>, TV>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// Checks made as part of another property's run only count there when the property asks for them.
struct Run<W: World> {
    prop: String,
    tree: [Tree<W>; 2],
    model: [Vec<(Raw, i64)>; 2],
    cfg: [(usize, usize); 2],
    next_v: i64,
}

fn hash(a: u64, b: u64, s: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ b.wrapping_mul(0x0F1E_2D3C_4B5A_6978) ^ s);
    r.next()
}

// ---------------------------------------------------------------- filters and rankings

/// Filters and rankings that compute with coordinates overflow on the inverted bounds of an empty tree,
/// as the supplied EuclideanDistanceRanking and Line do: they must not be asked about them.
fn defined<W: World>(r: &Raw) {
    if (0..W::DIM).any(|d| r[d] > r[3 + d]) {
        fault("a filter or ranking was evaluated on the bounds of an empty tree (the supplied distance ranking overflows there)");
    }
}

/// The tightest lawful filter for an arbitrary set of accepted entries' keys.
#[derive(Clone)]
pub struct SetFilter {
    pub acc: Vec<Raw>,   // defining coordinates of accepted keys
    pub braw: Vec<Raw>,  // their bounds
}
impl<W: World> SpatialFilter<W::B, TK<W>> for FW<'_, W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        let r = W::raw(b);
        defined::<W>(&r);
        self.0.braw.iter().any(|k| covers::<W>(&r, k))
    }
    fn test_key(&self, k: &TK<W>) -> bool {
        self.0.acc.contains(k.get())
    }
}
pub struct FW<'a, W: World>(pub &'a SetFilter, pub std::marker::PhantomData<W>);

/// Overlap with a box; lawful since bounds cover keys.
pub struct OverlapFilter<W: World>(pub Raw, pub std::marker::PhantomData<W>);
impl<W: World> SpatialFilter<W::B, TK<W>> for OverlapFilter<W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        overlaps::<W>(&W::raw(b), &self.0)
    }
    fn test_key(&self, k: &TK<W>) -> bool {
        overlaps::<W>(&W::kraw(k.get()), &self.0)
    }
}

/// The tightest lawful ranking for arbitrary ranks of keys.
pub struct TableRanking<W: World> {
    pub rows: Vec<(Raw, Raw, i64)>, // key, bounds, rank
    pub _p: std::marker::PhantomData<W>,
}
impl<W: World> TableRanking<W> {
    fn rank(&self, c: &Raw) -> Option<i64> {
        self.rows.iter().find(|r| r.0 == *c).map(|r| r.2)
    }
    fn low(&self, b: &W::B) -> i64 {
        let r = W::raw(b);
        defined::<W>(&r);
        self.rows.iter().filter(|k| covers::<W>(&r, &k.1)).map(|k| k.2).min().unwrap_or(i64::MAX)
    }
}
impl<W: World> Ranking<W::B, TK<W>> for &TableRanking<W> {
    type Metric = i64;
    fn bounds_min(&self, b: &W::B) -> i64 {
        self.low(b)
    }
    fn rank_key(&self, k: &TK<W>) -> i64 {
        self.rank(k.get()).unwrap_or(i64::MAX)
    }
}
/// Ranks as above; keys with rank divisible by `drop` are unranked.
pub struct OptRanking<'a, W: World>(pub &'a TableRanking<W>, pub i64);
impl<W: World> OptRanking<'_, W> {
    fn opt(&self, m: i64) -> Option<i64> {
        if self.1 > 0 && m % self.1 == 0 { None } else { Some(m) }
    }
}
impl<W: World> Ranking<W::B, TK<W>> for &OptRanking<'_, W> {
    type Metric = Option<i64>;
    fn bounds_min(&self, b: &W::B) -> Option<i64> {
        let r = W::raw(b);
        defined::<W>(&r);
        self.0.rows.iter().filter(|k| covers::<W>(&r, &k.1)).filter_map(|k| self.opt(k.2)).min()
    }
    fn rank_key(&self, k: &TK<W>) -> Option<i64> {
        self.0.rank(k.get()).and_then(|m| self.opt(m))
    }
}

/// The tightest lawful join filter for an arbitrary relation on keys.
pub struct RelFilter<'a, W: World> {
    pub seed: u64,
    pub den: u64,
    pub mode: u64, // 0 hash relation, 1 overlap of bounds
    pub l: &'a [(Raw, i64)],
    pub r: &'a [(Raw, i64)],
    pub _p: std::marker::PhantomData<W>,
}
impl<W: World> Clone for RelFilter<'_, W> {
    fn clone(&self) -> Self {
        RelFilter { seed: self.seed, den: self.den, mode: self.mode, l: self.l, r: self.r, _p: Default::default() }
    }
}
fn h_raw(r: &Raw) -> u64 {
    r.iter().fold(7, |a, x| (a ^ *x as u64).wrapping_mul(0x100_0000_01B3).rotate_left(17))
}
impl<W: World> RelFilter<'_, W> {
    pub fn rel(&self, a: &Raw, b: &Raw) -> bool {
        match self.mode {
            0 => hash(h_raw(a), h_raw(b), self.seed) % self.den == 0,
            1 => overlaps::<W>(&W::kraw(a), &W::kraw(b)),
            // accepts whole left rows
            _ => hash(h_raw(a), 1, self.seed) % self.den == 0,
        }
    }
}
impl<W: World> JoinFilter<W::B, W::B, TK<W>, TK<W>> for RelFilter<'_, W> {
    fn test_bounds(&self, a: &W::B, b: &W::B) -> bool {
        let (ra, rb) = (W::raw(a), W::raw(b));
        defined::<W>(&ra);
        defined::<W>(&rb);
        if self.mode == 1 {
            return overlaps::<W>(&ra, &rb);
        }
        let rs: Vec<&Raw> = self.r.iter().map(|e| &e.0).filter(|k| covers::<W>(&rb, &W::kraw(k))).collect();
        self.l.iter().any(|e| covers::<W>(&ra, &W::kraw(&e.0)) && rs.iter().any(|k| self.rel(&e.0, k)))
    }
    fn test_key(&self, a: &TK<W>, b: &TK<W>) -> bool {
        self.rel(a.get(), b.get())
    }
}

// ---------------------------------------------------------------- recording what is examined (C17)

/// What a filter, join filter or ranking was asked, and what it said.
#[derive(Default)]
pub struct Log {
    bounds: HashMap<String, Option<i64>>, // verdict (0 for accepted) or rank of a group's bounds
    keys: Vec<Raw>,
    pair_bounds: Vec<(usize, String, String)>, // rejected pairs of bounds, with the row they were rejected for (0: the join)
    pair_accepted: Vec<(usize, String, String)>, // accepted ones
    pairs: Vec<(usize, Raw, Raw)>,
    row: usize,
}
pub struct Rec<'a, F>(pub F, pub &'a RefCell<Log>);
impl<F: Clone> Clone for Rec<'_, F> {
    fn clone(&self) -> Self {
        Rec(self.0.clone(), self.1)
    }
}
impl<W: World, F: SpatialFilter<W::B, TK<W>>> SpatialFilter<W::B, TK<W>> for RecW<'_, W, F> {
    fn test_bounds(&self, b: &W::B) -> bool {
        let r = self.0 .0.test_bounds(b);
        self.0 .1.borrow_mut().bounds.insert(format!("{:?}", b), r.then_some(0));
        r
    }
    fn test_key(&self, k: &TK<W>) -> bool {
        self.0 .1.borrow_mut().keys.push(*k.get());
        self.0 .0.test_key(k)
    }
}
pub struct RecW<'a, W: World, F>(pub Rec<'a, F>, pub std::marker::PhantomData<W>);
impl<W: World, F: Clone> Clone for RecW<'_, W, F> {
    fn clone(&self) -> Self {
        RecW(self.0.clone(), Default::default())
    }
}
impl<W: World, F: JoinFilter<W::B, W::B, TK<W>, TK<W>>> JoinFilter<W::B, W::B, TK<W>, TK<W>> for RecW<'_, W, F> {
    fn test_bounds(&self, a: &W::B, b: &W::B) -> bool {
        let r = self.0 .0.test_bounds(a, b);
        let mut l = self.0 .1.borrow_mut();
        let x = (l.row, format!("{:?}", a), format!("{:?}", b));
        if r { l.pair_accepted.push(x) } else { l.pair_bounds.push(x) }
        r
    }
    fn test_key(&self, a: &TK<W>, b: &TK<W>) -> bool {
        let mut l = self.0 .1.borrow_mut();
        let row = l.row;
        l.pairs.push((row, *a.get(), *b.get()));
        drop(l);
        self.0 .0.test_key(a, b)
    }
}
impl<W: World> Ranking<W::B, TK<W>> for &RecW<'_, W, &TableRanking<W>> {
    type Metric = i64;
    fn bounds_min(&self, b: &W::B) -> i64 {
        let r = self.0 .0.bounds_min(b);
        self.0 .1.borrow_mut().bounds.insert(format!("{:?}", b), Some(r));
        r
    }
    fn rank_key(&self, k: &TK<W>) -> i64 {
        self.0 .1.borrow_mut().keys.push(*k.get());
        self.0 .0.rank_key(k)
    }
}
impl<W: World> Ranking<W::B, TK<W>> for &RecW<'_, W, &OptRanking<'_, W>> {
    type Metric = Option<i64>;
    fn bounds_min(&self, b: &W::B) -> Option<i64> {
        let r = self.0 .0.bounds_min(b);
        self.0 .1.borrow_mut().bounds.insert(format!("{:?}", b), r);
        r
    }
    fn rank_key(&self, k: &TK<W>) -> Option<i64> {
        self.0 .1.borrow_mut().keys.push(*k.get());
        self.0 .0.rank_key(k)
    }
}
/// The leaves of a tree: the bounds of the groups each is in, and its keys and values.
fn leaves(s: &Shape, up: &mut Vec<String>, out: &mut Vec<(Vec<String>, Vec<(Raw, i64)>)>) -> Option<()> {
    match s {
        Shape::Leaf(b, es) => {
            up.push(b.clone());
            let v = es.iter().map(|(k, x)| Some((key_raw(k)?, x.trim_start_matches('_').parse().ok()?))).collect::<Option<Vec<_>>>()?;
            out.push((up.clone(), v));
        }
        Shape::Inner(b, cs) => {
            up.push(b.clone());
            for c in cs {
                leaves(c, up, out)?;
            }
        }
    }
    up.pop();
    Some(())
}
/// How many groups have the same bounds: a rejection cannot be told to be of one of them then.
fn alike(s: &Shape, n: &mut HashMap<String, usize>) {
    match s {
        Shape::Leaf(b, _) => *n.entry(b.clone()).or_default() += 1,
        Shape::Inner(b, cs) => {
            *n.entry(b.clone()).or_default() += 1;
            cs.iter().for_each(|c| alike(c, n));
        }
    }
}
type Leaves = Vec<(Vec<String>, Vec<(Raw, i64)>)>;
/// Each key was examined no more often than it occurs in groups that may be examined.
fn only_in(what: &str, keys: &[Raw], ls: &Leaves, ok: impl Fn(&[String]) -> bool, once: bool) -> Res {
    let mut left: HashMap<Raw, usize> = HashMap::new();
    for (up, es) in ls {
        if ok(up) {
            for e in es {
                *left.entry(e.0).or_default() += 1;
            }
        }
    }
    let mut n: HashMap<Raw, usize> = HashMap::new();
    for k in keys {
        let c = n.entry(*k).or_default();
        *c += 1;
        let m = left.get(k).cloned().unwrap_or(0);
        ensure!(m > 0, "{}: the key {:?} is examined although it is in no group that may be", what, k);
        ensure!(!once || *c <= m, "{}: the key {:?} is examined {} times, it occurs in {} groups that may be", what, k, *c, m);
    }
    Ok(())
}

// ---------------------------------------------------------------- structure (from the Debug form)

#[derive(Debug)]
pub enum Shape {
    Inner(String, Vec<Shape>),
    Leaf(String, Vec<(String, String)>),
}
struct Ps<'a>(&'a [u8], usize);
impl<'a> Ps<'a> {
    fn lit(&mut self, s: &str) -> Option<()> {
        if self.0[self.1..].starts_with(s.as_bytes()) {
            self.1 += s.len();
            Some(())
        } else {
            None
        }
    }
    fn until(&mut self, s: &str) -> Option<String> {
        let st = self.1;
        while self.1 < self.0.len() {
            if self.0[self.1..].starts_with(s.as_bytes()) {
                let r = String::from_utf8_lossy(&self.0[st..self.1]).to_string();
                self.1 += s.len();
                return Some(r);
            }
            self.1 += 1;
        }
        None
    }
    fn node(&mut self) -> Option<Shape> {
        self.lit("Node { bounds: ")?;
        let b = self.until(", node: [")?;
        if self.lit("]").is_some() {
            self.lit(" }")?;
            return Some(Shape::Leaf(b, vec![]));
        }
        if self.0[self.1..].starts_with(b"Node") {
            let mut v = vec![];
            loop {
                v.push(self.node()?);
                if self.lit(", ").is_none() {
                    break;
                }
            }
            self.lit("] }")?;
            Some(Shape::Inner(b, v))
        } else {
            let mut v = vec![];
            loop {
                self.lit("(K")?;
                let k = self.until(", V")?;
                let x = self.until(")")?;
                v.push((k, x));
                if self.lit(", ").is_none() {
                    break;
                }
            }
            self.lit("] }")?;
            Some(Shape::Leaf(b, v))
        }
    }
}
pub fn shape(dbg: &str) -> Option<Shape> {
    let mut p = Ps(dbg.as_bytes(), 0);
    p.lit("RTree { root: ")?;
    let n = p.node()?;
    p.lit(" }")?;
    if p.1 == dbg.len() { Some(n) } else { None }
}
fn key_raw(s: &str) -> Option<Raw> {
    let v: Vec<i64> = s.split('_').skip(1).map(|x| x.parse().ok()).collect::<Option<_>>()?;
    v.try_into().ok()
}
/// Returns depth and the bounds (textual) recomputed from the keys.
fn check_shape<W: World>(s: &Shape, root: bool, cfg: (usize, usize)) -> Result<(usize, W::B, String), String> {
    let (min, max) = cfg;
    let chk = |n: usize, what: &str| -> Res {
        ensure!(n <= max, "a node has {} children, more than the maximum {} ({})", n, max, what);
        ensure!(root || n >= min, "a node has {} children, fewer than the minimum {} ({})", n, min, what);
        Ok(())
    };
    match s {
        Shape::Leaf(b, es) => {
            chk(es.len(), "leaf")?;
            let mut ks = vec![];
            for (k, _) in es {
                match key_raw(k) {
                    Some(r) => ks.push(r),
                    None => return Err("?".into()),
                }
            }
            let u = <W::B as rusty_rtree::bounds::Bounds>::union_all(ks.iter().map(|r| W::key(r).bounds()));
            if W::TIGHT {
                let want = format!("{:?}", u);
                ensure!(want == *b, "leaf bounds are {} but the union of its keys' bounds is {}", b, want);
            }
            Ok((0, u, b.clone()))
        }
        Shape::Inner(b, cs) => {
            chk(cs.len(), "inner")?;
            ensure!(!root || cs.len() >= 2, "the root is an inner node with {} children", cs.len());
            let mut depth = None;
            let mut us = vec![];
            for c in cs {
                let (d, u, _) = check_shape::<W>(c, false, cfg)?;
                if let Some(d0) = depth {
                    ensure!(d0 == d, "leaves at different depths");
                }
                depth = Some(d);
                us.push(u);
            }
            let u = <W::B as rusty_rtree::bounds::Bounds>::union_all(us);
            if W::TIGHT {
                let want = format!("{:?}", u);
                ensure!(want == *b, "inner bounds are {} but the union of its children's bounds is {}", b, want);
            }
            Ok((depth.unwrap() + 1, u, b.clone()))
        }
    }
}

// ---------------------------------------------------------------- helpers

fn sorted(mut v: Vec<(Raw, i64)>) -> Vec<(Raw, i64)> {
    v.sort();
    v
}
fn collect<'a, W: World>(it: impl Iterator<Item = (&'a TK<W>, &'a TV)>, cap: usize) -> Result<Vec<(Raw, i64)>, String> {
    let mut v = vec![];
    for (k, x) in it {
        v.push((*k.get(), x.get()));
        ensure!(v.len() <= cap, "the iterator yields more than {} entries", cap);
    }
    Ok(v)
}
/// The other methods of an iterator agree with its `next`, which gives `want`.
fn ways<I: Iterator, X: PartialEq + std::fmt::Debug + Clone>(name: &str, mut mk: impl FnMut() -> I, conv: impl Fn(I::Item) -> X, want: &[X], r: &mut Rng) -> Res {
    let n = want.len();
    let mut it = mk();
    let start = if r.chance(1, 2) { r.below(n as u64 + 1) as usize } else { 0 };
    for i in 0..start {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "{} has {} items left, its size_hint is {:?}", name, n - i, (lo, hi));
        let x = it.next().map(&conv);
        ensure!(x.as_ref() == Some(&want[i]), "{} gives {:?} where it gave {:?} before", name, x, want[i]);
    }
    let (lo, hi) = it.size_hint();
    ensure!(lo <= n - start && hi.map_or(true, |h| h >= n - start), "{} has {} items left, its size_hint is {:?}", name, n - start, (lo, hi));
    let rest = &want[start..];
    match r.below(6) {
        0 => {
            let c = it.count();
            ensure!(c == rest.len(), "count() of {} after {} items is {} instead of {}", name, start, c, rest.len());
        }
        1 => {
            let l = it.last().map(&conv);
            ensure!(l.as_ref() == rest.last(), "last() of {} after {} items is {:?} instead of {:?}", name, start, l, rest.last());
        }
        2 => {
            let v = it.fold(vec![], |mut v, x| { if v.len() <= n { v.push(conv(x)); } v });
            ensure!(v == rest, "fold() over {} after {} items visits {:?} instead of {:?}", name, start, v, rest);
        }
        3 => {
            let mut v = vec![];
            let done = it.try_for_each(|x| { v.push(conv(x)); if v.len() > n { Err(()) } else { Ok(()) } });
            ensure!(done.is_ok() && v == rest, "try_for_each() over {} after {} items visits {:?} instead of {:?}", name, start, v, rest);
        }
        4 => {
            // stop somewhere, then go on
            let k = r.below(rest.len() as u64 + 1) as usize;
            let i = Cell::new(0);
            let x = it.find(|_| { i.set(i.get() + 1); i.get() > k }).map(&conv);
            ensure!(x.as_ref() == rest.get(k), "find() over {} stops at {:?} instead of {:?}", name, x, rest.get(k));
            let x = it.next().map(&conv);
            ensure!(x.as_ref() == rest.get(k + 1), "after find() {} gives {:?} instead of {:?}", name, x, rest.get(k + 1));
        }
        _ => {
            let mut at = 0;
            loop {
                let k = [0, 1, 2, 5, 17][r.below(5) as usize];
                let x = it.nth(k).map(&conv);
                ensure!(x.as_ref() == rest.get(at + k), "nth({}) of {} after {} items is {:?} instead of {:?}", k, name, start + at, x, rest.get(at + k));
                if x.is_none() {
                    break;
                }
                at += k + 1;
            }
        }
    }
    Ok(())
}
fn pair<'a, W: World>(e: (&'a TK<W>, &'a TV)) -> (Raw, i64) {
    (*e.0.get(), e.1.get())
}
fn diff(got: &[(Raw, i64)], want: &[(Raw, i64)]) -> String {
    let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
    format!("{} entries instead of {}; missing {:?}, unexpected {:?}", got.len(), want.len(), miss, extra)
}

impl<W: World> Run<W> {
    fn is(&self, p: &str) -> bool {
        self.prop == p
    }

    fn op(&mut self, o: &[i64]) -> Res {
        let t = o[0] as usize;
        let c: Raw = o[2..8].try_into().unwrap();
        let v = self.next_v;
        self.next_v += 1;
        let p01 = self.is("C01");
        let p02 = self.is("C02");
        // which entry the lookup names, for the agreement of C02
        let first = if p02 {
            let it = self.tree[t].iter().find(|(k, _)| *k.get() == c).map(|(_, x)| x.get());
            let g = self.tree[t].get(&TK::<W>::new(&c)).map(|x| x.get());
            ensure!(g == it, "lookup of {:?} gives {:?}, the first equal key in iteration order has {:?}", c, g, it);
            Some(g)
        } else {
            None
        };
        match o[1] {
            0 => {
                self.tree[t].insert(TK::new(&c), TV::new(v));
                self.model[t].push((c, v));
            }
            1 => {
                let had = self.model[t].iter().any(|e| e.0 == c);
                let old = self.tree[t].insert_unique(TK::new(&c), TV::new(v)).map(|x| x.get());
                if p01 {
                    ensure!(old.is_some() == had, "insert_unique({:?}) returned {:?} although the key was {}present", c, old, if had { "" } else { "not " });
                }
                if let Some(f) = first {
                    ensure!(old == f, "insert_unique({:?}) replaced {:?}, the lookup named {:?}", c, old, f);
                }
                match old {
                    Some(old) => match self.model[t].iter_mut().find(|e| e.0 == c && e.1 == old) {
                        Some(e) => e.1 = v,
                        None => {
                            ensure!(!p01, "insert_unique({:?}) returned {}, which is not the value of an equal key", c, old);
                            return Err("?".into());
                        }
                    },
                    None => self.model[t].push((c, v)),
                }
            }
            2 => {
                let had = self.model[t].iter().any(|e| e.0 == c);
                let got = if v % 2 == 0 {
                    self.tree[t].remove::<TK<W>>(&TK::new(&c))
                } else {
                    self.tree[t].remove::<Q<W>>(&Q(TK::new(&c)))
                }
                .map(|x| x.get());
                if p01 {
                    ensure!(got.is_some() == had, "remove({:?}) returned {:?} although the key was {}present", c, got, if had { "" } else { "not " });
                }
                if let Some(f) = first {
                    ensure!(got == f, "remove({:?}) removed {:?}, the lookup named {:?}", c, got, f);
                }
                if let Some(got) = got {
                    match self.model[t].iter().position(|e| e.0 == c && e.1 == got) {
                        Some(i) => {
                            self.model[t].swap_remove(i);
                        }
                        None => {
                            ensure!(!p01, "remove({:?}) returned {}, which is not the value of an equal key", c, got);
                            return Err("?".into());
                        }
                    }
                }
            }
            _ => {}
        }
        if p01 && self.model[t].len() <= 24 {
            self.contents(t)?;
        }
        if self.is("C08") && self.model[t].len() <= 16 {
            self.structure(t)?;
        }
        if self.is("C09") {
            let want: usize = self.model.iter().map(|m| 2 * m.len()).sum();
            let live = ledger_live_cheap();
            ensure!(live == want, "{} keys and values are alive although the trees hold {}", live, want);
        }
        Ok(())
    }

    fn contents(&self, t: usize) -> Res {
        let got = sorted(collect(self.tree[t].iter(), self.model[t].len() + 8)?);
        let want = sorted(self.model[t].clone());
        ensure!(got == want, "contents differ: {}", diff(&got, &want));
        Ok(())
    }

    fn structure(&self, t: usize) -> Res {
        let d = format!("{:?}", self.tree[t]);
        match shape(&d) {
            // another Debug form: nothing can be observed this way
            None => Ok(()),
            Some(s) => match check_shape::<W>(&s, true, self.cfg[t]) {
                Err(e) if e == "?" => Ok(()),
                Err(e) => Err(format!("{}; tree {}", e, d)),
                Ok((depth, _, _)) => {
                    let n = self.model[t].len();
                    let (min, _) = self.cfg[t];
                    if depth > 0 {
                        let mut least = 2usize;
                        for _ in 0..depth {
                            least = least.saturating_mul(min);
                        }
                        ensure!(n >= least || min == 1, "depth {} with {} entries", depth, n);
                    }
                    Ok(())
                }
            },
        }
    }

    /// Keys worth asking for: present, absent, near.
    fn probes(&self, t: usize, r: &mut Rng, n: usize) -> Vec<Raw> {
        let mut v = vec![];
        for _ in 0..n {
            let base = if self.model[t].is_empty() { [0; 6] } else { self.model[t][r.below(self.model[t].len() as u64) as usize].0 };
            let mut c = base;
            match r.below(4) {
                0 | 1 => {}
                2 => {
                    for d in 0..W::DIM {
                        c[d] += r.range(-1, 1);
                        if W::EXTENT {
                            c[3 + d] = if W::FREE { c[3 + d] + r.range(-1, 1) } else { c[d].max(c[3 + d] + r.range(-1, 1)) };
                        }
                    }
                }
                _ => {
                    let o = if self.model[t].is_empty() { [1; 6] } else { self.model[t][r.below(self.model[t].len() as u64) as usize].0 };
                    for d in 0..W::DIM {
                        c[d] = o[d];
                        if W::EXTENT && !W::FREE {
                            c[3 + d] = c[3 + d].max(c[d]);
                        }
                    }
                }
            }
            v.push(c);
        }
        v
    }

    fn set_filter(&self, t: usize, r: &mut Rng) -> SetFilter {
        let den = [1, 1, 2, 3, 10, 1000][r.below(6) as usize];
        let s = r.next();
        let mut acc: Vec<Raw> = vec![];
        for e in &self.model[t] {
            if hash(h_raw(&e.0), 5, s) % den == 0 && !acc.contains(&e.0) {
                acc.push(e.0);
            }
        }
        if r.chance(1, 3) && !self.model[t].is_empty() {
            acc = vec![self.model[t][r.below(self.model[t].len() as u64) as usize].0];
        }
        let braw = acc.iter().map(|c| W::kraw(c)).collect();
        SetFilter { acc, braw }
    }
    fn query_box(&self, t: usize, r: &mut Rng) -> Raw {
        let mut q = [0; 6];
        let a = self.probes(t, r, 2);
        let (x, y) = (W::kraw(&a[0]), W::kraw(&a[1]));
        for d in 0..W::DIM {
            let z = [x[d], x[3 + d], y[d], y[3 + d]];
            let (p, s) = (z[r.below(4) as usize] + r.range(-1, 1), z[r.below(4) as usize]);
            q[d] = p.min(s);
            q[3 + d] = p.max(s);
        }
        q
    }
    fn ranking(&self, t: usize, r: &mut Rng) -> TableRanking<W> {
        let m = [1, 2, 4, 30, 100000][r.below(5) as usize];
        let s = r.next();
        let mut rows: Vec<(Raw, Raw, i64)> = vec![];
        let spatial = r.chance(1, 2);
        let o = self.probes(t, r, 1)[0];
        let mut seen = std::collections::HashSet::new();
        for e in &self.model[t] {
            if seen.insert(e.0) {
                let rank = if spatial {
                    (0..W::DIM).map(|d| (e.0[d] - o[d]).abs()).sum::<i64>() % 1_000_003
                } else {
                    (hash(h_raw(&e.0), 9, s) % m) as i64
                };
                rows.push((e.0, W::kraw(&e.0), rank));
            }
        }
        TableRanking { rows, _p: Default::default() }
    }

    fn checkpoint(&mut self, seed: i64) -> Res {
        let r = &mut Rng::new(seed as u64);
        let t = 0;
        let n = self.model[t].len();
        match self.prop.as_str() {
            "C01" => self.contents(t)?,
            "C02" => {
                for c in self.probes(t, r, 12) {
                    let first = self.tree[t].iter().find(|(k, _)| *k.get() == c).map(|(_, x)| x.get());
                    let present = self.model[t].iter().any(|e| e.0 == c);
                    let a = self.tree[t].get::<TK<W>>(&TK::new(&c)).map(|x| x.get());
                    let b = self.tree[t].get::<Q<W>>(&Q(TK::new(&c))).map(|x| x.get());
                    let d = self.tree[t].get_mut::<TK<W>>(&TK::new(&c)).map(|x| x.get());
                    ensure!(a.is_some() == present, "lookup of {:?} gives {:?} although the key is {}present", c, a, if present { "" } else { "not " });
                    ensure!(a == b && a == d, "lookups of {:?} disagree: {:?}, borrowed {:?}, mutable {:?}", c, a, b, d);
                    if let Some(a) = a {
                        ensure!(self.model[t].contains(&(c, a)), "lookup of {:?} gives {}, which is not the value of an equal key", c, a);
                    }
                    ensure!(a == first, "lookup of {:?} gives {:?}, the first equal key in iteration order has {:?}", c, a, first);
                }
            }
            "C03" => {
                for _ in 0..3 {
                    let f = self.set_filter(t, r);
                    let fw = FW::<W>(&f, Default::default());
                    let got = sorted(collect(self.tree[t].filter_iter(FW::<W>(&f, Default::default())), n + 8)?);
                    let want = sorted(self.model[t].iter().filter(|e| f.acc.contains(&e.0)).cloned().collect());
                    ensure!(got == want, "filter accepting {:?}: {}", f.acc, diff(&got, &want));
                    let order = collect(self.tree[t].filter_iter(FW::<W>(&f, Default::default())), n + 8)?;
                    ways("the filtered iterator", || self.tree[t].filter_iter(FW::<W>(&f, Default::default())), pair::<W>, &order, r)?;
                    let mut it = self.tree[t].filter_iter(fw);
                    for _ in 0..want.len() {
                        it.next();
                    }
                    for _ in 0..3 {
                        ensure!(it.next().is_none(), "the filtered iterator yields again after its last entry");
                    }
                    let q = self.query_box(t, r);
                    let got = sorted(collect(self.tree[t].filter_iter(OverlapFilter::<W>(q, Default::default())), n + 8)?);
                    let want = sorted(self.model[t].iter().filter(|e| overlaps::<W>(&W::kraw(&e.0), &q)).cloned().collect());
                    ensure!(got == want, "overlap with {:?}: {}", q, diff(&got, &want));
                }
            }
            "C04" => {
                self.contents(t)?;
                let got = sorted(collect((&self.tree[t]).into_iter(), n + 8)?);
                ensure!(got == sorted(self.model[t].clone()), "iteration by reference differs from the contents");
                let order = collect(self.tree[t].iter(), n + 8)?;
                ways("the iterator", || self.tree[t].iter(), pair::<W>, &order, r)?;
                ways("the iterator", || (&self.tree[t]).into_iter(), pair::<W>, &order, r)?;
                ensure!(self.tree[t].len() == n, "len() is {} with {} entries", self.tree[t].len(), n);
                ensure!(self.tree[t].is_empty() == (n == 0), "is_empty() is {} with {} entries", self.tree[t].is_empty(), n);
                let mut it = self.tree[t].iter();
                for _ in 0..n {
                    it.next();
                }
                for _ in 0..3 {
                    ensure!(it.next().is_none(), "the iterator yields again after its last entry");
                }
            }
            "C05" => {
                for _ in 0..2 {
                    let rk = self.ranking(t, r);
                    let got = collect(self.tree[t].iter_asc_by(&rk), n + 8)?;
                    let ranks: Vec<i64> = got.iter().map(|e| rk.rank(&e.0).unwrap_or(i64::MAX)).collect();
                    ensure!(ranks.windows(2).all(|w| w[0] <= w[1]), "ranked iteration is not ascending: {:?}", ranks);
                    let (g, w) = (sorted(got.clone()), sorted(self.model[t].clone()));
                    ensure!(g == w, "ranked iteration: {}", diff(&g, &w));
                    ways("ranked iteration", || self.tree[t].iter_asc_by(&rk), pair::<W>, &got, r)?;
                    let m = self.tree[t].min_by(&rk).map(|(k, x)| (*k.get(), x.get()));
                    let least = rk.rows.iter().map(|x| x.2).min();
                    ensure!(m.map(|m| rk.rank(&m.0).unwrap_or(i64::MAX)) == least, "minimum query gives {:?}, the least rank is {:?}", m, least);
                    if let Some(m) = m {
                        ensure!(self.model[t].contains(&m), "minimum query gives an entry that is not there");
                    }
                    let mut it = self.tree[t].iter_asc_by(&rk);
                    for _ in 0..n {
                        it.next();
                    }
                    ensure!(it.next().is_none() && it.next().is_none(), "ranked iteration yields again after its last entry");
                    let op = OptRanking(&rk, [1, 2, 3, 7][r.below(4) as usize]);
                    let got = collect(self.tree[t].filter_iter_asc_by(&op), n + 8)?;
                    ways("filtered ranked iteration", || self.tree[t].filter_iter_asc_by(&op), pair::<W>, &got, r)?;
                    let rank = |c: &Raw| rk.rank(c).and_then(|m| op.opt(m));
                    let ranks: Vec<_> = got.iter().map(|e| rank(&e.0)).collect();
                    ensure!(ranks.iter().all(|x| x.is_some()), "an unranked entry is yielded");
                    ensure!(ranks.windows(2).all(|w| w[0] <= w[1]), "filtered ranked iteration is not ascending: {:?}", ranks);
                    let want = sorted(self.model[t].iter().filter(|e| rank(&e.0).is_some()).cloned().collect());
                    let g = sorted(got);
                    ensure!(g == want, "filtered ranked iteration: {}", diff(&g, &want));
                    let m = self.tree[t].filter_min_by(&op).map(|(k, x)| (*k.get(), x.get()));
                    let least = want.iter().map(|e| rank(&e.0)).min();
                    ensure!(m.map(|m| rank(&m.0)) == least, "filtered minimum query gives {:?}, the least rank is {:?}", m, least);
                }
            }
            "C06" => self.join(r)?,
            "C07" => self.left_join(r)?,
            "C15" => self.interleave(r)?,
            "C08" => self.structure(t)?,
            "C09" => self.ownership(r)?,
            "C10" => self.clones(r)?,
            "C11" => self.mutable(r)?,
            "C16" => self.everything(r)?,
            "C17" => self.examined(r)?,
            _ => {}
        }
        Ok(())
    }

    fn rel<'a>(&'a self, r: &mut Rng) -> RelFilter<'a, W> {
        let (l, rr) = (&self.model[0][..], &self.model[1][..]);
        let big = l.len() * rr.len() > 3000;
        RelFilter {
            seed: r.next(),
            den: [1, 2, 4, 10, 50, 300][r.below(6) as usize],
            mode: if big { 1 + r.below(8) / 7 } else { [0, 0, 1, 2][r.below(4) as usize] },
            l,
            r: rr,
            _p: Default::default(),
        }
    }

    fn join(&self, r: &mut Rng) -> Res {
        let f = self.rel(r);
        let mut want = HashMap::new();
        for a in f.l {
            for b in f.r {
                if f.rel(&a.0, &b.0) {
                    want.insert((a.1, b.1), 1i32);
                }
            }
        }
        let mut left = want.len();
        let mut order = vec![];
        let mut it = self.tree[0].join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], f.clone());
        for (a, b) in &mut it {
            order.push((a.1.get(), b.1.get()));
            a.0.get();
            b.0.get();
            match want.get_mut(&(a.1.get(), b.1.get())) {
                None => return Err(format!("join yields a pair that does not match: {:?} {:?}", a.0, b.0)),
                Some(c) => {
                    ensure!(*c == 1, "join yields the pair {:?} {:?} twice", a.0, b.0);
                    *c = 0;
                    left -= 1;
                }
            }
        }
        ensure!(left == 0, "join misses {} matching pairs, such as {:?}", left, want.iter().find(|x| *x.1 == 1).map(|x| x.0));
        ensure!(it.next().is_none(), "join yields again after its last pair");
        if r.chance(1, 2) {
            ways("the join", || self.tree[0].join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], f.clone()), |(a, b)| (a.1.get(), b.1.get()), &order, r)?;
        }
        Ok(())
    }

    fn left_join(&self, r: &mut Rng) -> Res {
        let f = self.rel(r);
        let mut lefts: HashMap<i64, Raw> = self.model[0].iter().map(|e| (e.1, e.0)).collect();
        let mut order = vec![];
        let mut it = self.tree[0].left_join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], f.clone());
        for ((k, v), row) in &mut it {
            let c = *k.get();
            ensure!(lefts.remove(&v.get()) == Some(c), "left join yields the left entry {:?} twice, or one that is not there", k);
            let got = collect::<W>(row, self.model[1].len() + 8)?;
            order.push((v.get(), got.clone()));
            let got = sorted(got);
            let want = sorted(self.model[1].iter().filter(|e| f.rel(&c, &e.0)).cloned().collect());
            ensure!(got == want, "row of left entry {:?}: {}", c, diff(&got, &want));
        }
        ensure!(lefts.is_empty(), "left join misses {} left entries, such as {:?}", lefts.len(), lefts.iter().next());
        ensure!(it.next().is_none(), "left join yields again after its last row");
        if r.chance(1, 2) {
            let mk = || self.tree[0].left_join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], f.clone());
            let vals: Vec<_> = order.iter().map(|o| o.0).collect();
            ways("the left join", mk, |((_, v), _)| v.get(), &vals, r)?;
            ways("the left join", mk, |((_, v), row)| (v.get(), row.map(pair::<W>).take(self.model[1].len() + 8).collect::<Vec<_>>()), &order, r)?;
            let mut it = mk();
            for o in &order {
                let row = it.next().ok_or("left join ends early when it is repeated")?.1;
                let mut row = Some(row);
                // a row can be consumed once only
                ways("a row of the left join", || row.take().unwrap(), pair::<W>, &o.1, r)?;
            }
        }
        Ok(())
    }

    fn interleave(&self, r: &mut Rng) -> Res {
        let f = self.rel(r);
        let mut it = Some(self.tree[0].left_join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], f.clone()));
        let mut rows = vec![];
        let keep = [1, 2, 3, 6][r.below(4) as usize];
        let mut steps = 0;
        loop {
            steps += 1;
            if steps > 4000 {
                break;
            }
            match r.below(8) {
                0..=2 if it.is_some() && rows.len() < keep => {
                    match it.as_mut().unwrap().next() {
                        Some(((k, _), row)) => {
                            let c = *k.get();
                            let want = sorted(self.model[1].iter().filter(|e| f.rel(&c, &e.0)).cloned().collect());
                            rows.push((c, row, vec![], want, false));
                        }
                        None => it = None,
                    }
                }
                3 if r.chance(1, 40) => it = None,
                4 if !rows.is_empty() && r.chance(1, 3) => {
                    let i = r.below(rows.len() as u64) as usize;
                    rows.swap_remove(i);
                }
                _ => {
                    if rows.is_empty() {
                        if it.is_none() {
                            break;
                        }
                        continue;
                    }
                    let i = r.below(rows.len() as u64) as usize;
                    let k = r.range(1, 5);
                    for _ in 0..k {
                        let row = &mut rows[i];
                        if let Some((k, v)) = row.1.next() {
                            row.2.push((*k.get(), v.get()));
                            ensure!(row.2.len() <= row.3.len(), "row of {:?} yields more than its {} matches", row.0, row.3.len());
                        } else {
                            row.4 = true;
                            let got = sorted(row.2.clone());
                            ensure!(got == row.3, "row of left entry {:?}, consumed piecemeal: {}", row.0, diff(&got, &row.3));
                            break;
                        }
                    }
                    if rows[i].4 && r.chance(1, 2) {
                        rows.swap_remove(i);
                    }
                }
            }
        }
        if r.chance(1, 2) {
            drop(it);
            while !rows.is_empty() {
                let i = r.below(rows.len() as u64) as usize;
                let mut row = rows.swap_remove(i);
                row.2.extend(collect::<W>(&mut row.1, self.model[1].len() + 8)?);
                let got = sorted(row.2);
                ensure!(got == row.3, "row of left entry {:?}, outliving the join: {}", row.0, diff(&got, &row.3));
            }
        }
        Ok(())
    }

    fn alike(&self, t: usize) -> HashMap<String, usize> {
        let mut n = HashMap::new();
        if let Some(s) = shape(&format!("{:?}", self.tree[t])) {
            alike(&s, &mut n);
        }
        n
    }
    fn leaves(&self, t: usize) -> Result<Leaves, String> {
        let mut v = vec![];
        match shape(&format!("{:?}", self.tree[t])).and_then(|s| leaves(&s, &mut vec![], &mut v)) {
            Some(()) => Ok(v),
            None => Err("?".into()),
        }
    }

    /// What filters, join filters and rankings are asked.
    fn examined(&mut self, r: &mut Rng) -> Res {
        let n = self.model[0].len();
        let ls = self.leaves(0)?;
        let take = |r: &mut Rng| if r.chance(1, 2) { n + 1 } else { r.below(n as u64 + 2) as usize };
        for _ in 0..2 {
            let f = self.set_filter(0, r);
            let q = self.query_box(0, r);
            for kind in 0..4 {
                let log = RefCell::new(Log::default());
                let (m, cap) = (take(r), n + 8);
                let fw = || RecW::<W, _>(Rec(FW::<W>(&f, Default::default()), &log), Default::default());
                let ov = || RecW::<W, _>(Rec(OverlapFilter::<W>(q, Default::default()), &log), Default::default());
                let c = match kind {
                    0 => self.tree[0].filter_iter(fw()).take(m.min(cap)).count(),
                    1 => self.tree[0].filter_iter(ov()).take(m.min(cap)).count(),
                    2 => self.tree[0].filter_iter_mut(fw()).take(m.min(cap)).count(),
                    _ => self.tree[0].filter_iter_mut(ov()).take(m.min(cap)).count(),
                };
                let _ = c;
                let log = log.borrow();
                let what = ["filtered iteration", "filtered iteration", "mutable filtered iteration", "mutable filtered iteration"][kind];
                only_in(what, &log.keys, &ls, |up| up.iter().all(|b| matches!(log.bounds.get(b), Some(Some(_)))), true)?;
            }
        }
        let rk = self.ranking(0, r);
        let op = OptRanking(&rk, [0, 2, 3, 7][r.below(4) as usize]);
        for kind in 0..8 {
            let log = RefCell::new(Log::default());
            let m = take(r);
            let p = RecW::<W, _>(Rec(&rk, &log), Default::default());
            let o = RecW::<W, _>(Rec(&op, &log), Default::default());
            // ranks taken, and how many keys had been examined by then
            let mut seen: Vec<(Option<i64>, usize)> = vec![];
            macro_rules! run { ($e:expr, $rank:expr) => {{
                let mut it = $e;
                seen.push((Some(i64::MIN), log.borrow().keys.len()));
                for _ in 0..m {
                    match it.next() {
                        Some((k, _)) => { let x = $rank(k.get()); seen.push((x, log.borrow().keys.len())); }
                        None => { seen.push((None, log.borrow().keys.len())); break; }
                    }
                }
            }}; }
            macro_rules! one { ($e:expr, $rank:expr) => {{
                let x = $e.and_then(|(k, _)| $rank(k.get()));
                seen.push((x, log.borrow().keys.len()));
            }}; }
            let rp = |k: &Raw| rk.rank(k);
            let ro = |k: &Raw| rk.rank(k).and_then(|m| op.opt(m));
            match kind {
                0 => run!(self.tree[0].iter_asc_by(&p), rp),
                1 => run!(self.tree[0].iter_asc_by_mut(&p), rp),
                2 => run!(self.tree[0].filter_iter_asc_by(&o), ro),
                3 => run!(self.tree[0].filter_iter_asc_by_mut(&o), ro),
                4 => one!(self.tree[0].min_by(&p), rp),
                5 => one!(self.tree[0].min_by_mut(&p), rp),
                6 => one!(self.tree[0].filter_min_by(&o), ro),
                _ => one!(self.tree[0].filter_min_by_mut(&o), ro),
            }
            let log = log.borrow();
            let what = ["ranked iteration", "mutable ranked iteration", "filtered ranked iteration", "mutable filtered ranked iteration", "minimum query", "mutable minimum query", "filtered minimum query", "mutable filtered minimum query"][kind];
            // after the last entry, every group that has a rank may have been examined
            let step = 1 + seen.len() / 6;
            for (i, (x, c)) in seen.iter().enumerate() {
                if i % step == 0 || i + 1 == seen.len() {
                    let ok = |up: &[String]| up.iter().all(|b| match log.bounds.get(b) { None => true, Some(None) => false, Some(Some(l)) => x.map_or(true, |x| *l <= x) });
                    only_in(what, &log.keys[..*c], &ls, ok, false)?;
                }
            }
        }
        if self.model[0].len() * self.model[1].len() > 6000 {
            return Ok(());
        }
        let rs = self.leaves(1)?;
        let (la, ra) = (self.alike(0), self.alike(1));
        let f = self.rel(r);
        let log = RefCell::new(Log::default());
        let rec = RecW::<W, _>(Rec(f.clone(), &log), Default::default());
        let m = if r.chance(1, 2) { usize::MAX } else { r.below(30) as usize };
        let lim = f.l.len() * f.r.len() + 8;
        self.tree[0].join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], rec.clone()).take(m.min(lim)).count();
        {
            let log = log.borrow();
            let bad: std::collections::HashSet<(&str, &str)> = log.pair_bounds.iter().filter(|x| la.get(&x.1) == Some(&1) && ra.get(&x.2) == Some(&1)).map(|x| (&*x.1, &*x.2)).collect();
            let good: std::collections::HashSet<(&str, &str)> = log.pair_accepted.iter().map(|x| (&*x.1, &*x.2)).collect();
            let mut may: HashMap<(Raw, Raw), usize> = HashMap::new();
            for (ua, ea) in &ls {
                for (ub, eb) in &rs {
                    let met = |a: &String, b: &String| good.contains(&(&**a, &**b));
                    if ua.iter().all(|a| ub.iter().any(|b| met(a, b)))
                        && ub.iter().all(|b| ua.iter().any(|a| met(a, b)))
                        && !ua.iter().any(|a| ub.iter().any(|b| bad.contains(&(&**a, &**b))))
                    {
                        for a in ea {
                            for b in eb {
                                *may.entry((a.0, b.0)).or_default() += 1;
                            }
                        }
                    }
                }
            }
            for (_, a, b) in &log.pairs {
                let c = may.entry((*a, *b)).or_default();
                ensure!(*c > 0, "join: the keys {:?} and {:?} are examined although their groups' bounds were not accepted, or too often", a, b);
                *c -= 1;
            }
        }
        log.replace(Log::default());
        let mut it = self.tree[0].left_join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[1], rec);
        let mut rows = vec![];
        loop {
            log.borrow_mut().row = 0;
            let Some(((k, v), mut row)) = it.next() else { break };
            rows.push((*k.get(), v.get()));
            if rows.len() > n {
                return Err("?".into());
            }
            log.borrow_mut().row = rows.len();
            let m = if r.chance(2, 3) { usize::MAX } else { r.below(5) as usize };
            (&mut row).take(m.min(self.model[1].len() + 8)).count();
        }
        let log = log.borrow();
        ensure!(log.pairs.iter().all(|p| p.0 > 0), "left join: keys are examined before a row is asked for its entries");
        let join_good: std::collections::HashSet<(&str, &str)> = log.pair_accepted.iter().filter(|x| x.0 == 0).map(|x| (&*x.1, &*x.2)).collect();
        let mut by_row: Vec<(Vec<(&str, &str)>, Vec<Raw>, Vec<&str>)> = vec![Default::default(); rows.len() + 1];
        for (i, a, b) in &log.pair_bounds {
            if ra.get(b) != Some(&1) || (*i == 0 && la.get(a) != Some(&1)) {
                continue;
            }
            by_row[*i].0.push((a, b));
        }
        for (i, _, b) in &log.pair_accepted {
            by_row[*i].2.push(b);
        }
        for (i, a, b) in &log.pairs {
            ensure!(*a == rows[*i - 1].0, "left join: the row of {:?} examines {:?}", rows[*i - 1].0, a);
            by_row[*i].1.push(*b);
        }
        let join_bad: std::collections::HashSet<(&str, &str)> = by_row[0].0.iter().cloned().collect();
        for (i, (k, v)) in rows.iter().enumerate() {
            let Some((up, _)) = ls.iter().find(|l| l.1.contains(&(*k, *v))) else { return Err("?".into()) };
            let (bad, keys, good) = &by_row[i + 1];
            let ok = |ub: &[String]| ub.iter().all(|b| (good.contains(&&**b) || up.iter().any(|a| join_good.contains(&(&**a, &**b)))) && !bad.iter().any(|x| x.1 == &**b) && !up.iter().any(|a| join_bad.contains(&(&**a, &**b))));
            only_in("left join row", keys, &rs, ok, true)?;
        }
        Ok(())
    }

    fn ownership(&mut self, r: &mut Rng) -> Res {
        // touch every entry: a released or unowned one is caught by its token
        let t = 0;
        for (k, v) in self.tree[t].iter() {
            k.get();
            v.get();
        }
        if r.chance(1, 3) {
            let c = self.tree[t].clone();
            let live = ledger_live_cheap();
            ensure!(live == 4 * self.model[t].len(), "after cloning {} keys and values are alive, expected {}", live, 4 * self.model[t].len());
            if r.chance(1, 2) {
                let old = std::mem::replace(&mut self.tree[t], c);
                drop(old);
            } else {
                drop(c);
            }
        }
        let live = ledger_live_cheap();
        ensure!(live == 2 * self.model[t].len(), "{} keys and values are alive although the tree holds {}", live, 2 * self.model[t].len());
        if r.chance(1, 3) {
            // iterators abandoned half-way own nothing
            let k = r.below(self.model[t].len() as u64 + 1);
            let _ = self.tree[t].iter().take(k as usize).count();
            let _ = self.tree[t].iter_mut().take(k as usize).count();
            let rk = self.ranking(t, r);
            let _ = self.tree[t].iter_asc_by(&rk).take(k as usize).count();
            let mut o = OptRanking(&rk, 2);
            let _ = self.tree[t].filter_iter_asc_by(&o).take(k as usize).count();
            o.1 = 3;
            let _ = self.tree[t].filter_iter_asc_by_mut(&o).take(k as usize).count();
        }
        Ok(())
    }

    fn clones(&mut self, r: &mut Rng) -> Res {
        let t = 0;
        let before = format!("{:?}", self.tree[t]);
        let mut c = self.tree[t].clone();
        let cd = format!("{:?}", c);
        ensure!(cd == before, "the clone differs from the original: {} / {}", cd, before);
        let a: Vec<_> = collect(self.tree[t].iter(), 1 << 20)?;
        let b: Vec<_> = collect(c.iter(), 1 << 20)?;
        ensure!(a == b, "the clone's entries differ in content or order");
        for ((k, v), (k2, v2)) in self.tree[t].iter().zip(c.iter()) {
            ensure!(!std::ptr::eq(k, k2) && !std::ptr::eq(v, v2), "clone and original share an entry");
        }
        if r.chance(1, 3) {
            // cloning into a tree that has a configuration and entries of its own
            let mut d: Tree<W> = RTree::new(RTreeConfig { min_children: self.cfg[1].0, max_children: self.cfg[1].1 });
            for i in 0..r.below(12) {
                let p = self.probes(t, r, 1)[0];
                d.insert(TK::new(&p), TV::new(3_000_000 + i as i64));
            }
            d.clone_from(&self.tree[t]);
            ensure!(format!("{:?}", d) == before, "a tree cloned into another differs from the original");
            c = d;
        }
        // same behaviour afterwards: same configuration and structure
        let mut c2 = self.tree[t].clone();
        let mut m = self.model[t].clone();
        let k = r.range(1, 12);
        for i in 0..k {
            let p = self.probes(t, r, 1)[0];
            let code = r.below(3);
            for tr in [&mut c, &mut c2] {
                match code {
                    0 => tr.insert(TK::new(&p), TV::new(1_000_000 + i)),
                    1 => {
                        tr.remove::<TK<W>>(&TK::new(&p));
                    }
                    _ => {
                        for (_, v) in tr.iter_mut() {
                            v.v += 1;
                        }
                    }
                }
            }
            let now = format!("{:?}", self.tree[t]);
            ensure!(now == before, "changing the clone changed the original");
        }
        m.clear();
        let (x, y) = (format!("{:?}", c), format!("{:?}", c2));
        ensure!(x == y, "two clones of a tree differ after the same operations");
        // the same operations on the original give the same tree: same configuration
        drop(c2);
        if r.chance(1, 2) {
            let snap = format!("{:?}", c);
            let p = self.probes(t, r, 1)[0];
            let mut o = self.tree[t].clone();
            std::mem::swap(&mut o, &mut self.tree[t]);
            // `o` is the original: work on it, keep the copy
            for i in 0..r.range(1, 20) {
                let q = self.probes(t, r, 1)[0];
                if i % 3 == 2 {
                    o.remove::<TK<W>>(&TK::new(&q));
                    self.tree[t].remove::<TK<W>>(&TK::new(&q));
                } else {
                    o.insert(TK::new(&q), TV::new(2_000_000 + i));
                    self.tree[t].insert(TK::new(&q), TV::new(2_000_000 + i));
                }
            }
            o.insert(TK::new(&p), TV::new(7));
            self.tree[t].insert(TK::new(&p), TV::new(7));
            ensure!(format!("{:?}", o) == format!("{:?}", self.tree[t]), "a clone and its original differ after the same operations");
            let mut n: Vec<_> = collect(o.iter(), 1 << 20)?;
            drop(o);
            ensure!(format!("{:?}", c) == snap, "changing the original changed the clone");
            std::mem::swap(&mut self.model[t], &mut n);
            self.contents(t)?;
        }
        Ok(())
    }

    fn mutable(&mut self, r: &mut Rng) -> Res {
        let t = 0;
        let f = self.set_filter(t, r);
        let rk = self.ranking(t, r);
        let op_div = [1, 2, 3, 7][r.below(4) as usize];
        let base = self.next_v + 1000;
        self.next_v += 1_000_000;
        let snapshot = |tree: &Tree<W>| -> Result<Vec<(Raw, i64)>, String> { collect(tree.iter(), 1 << 20) };
        let strip = |d: String| -> String {
            // Debug form without the values
            let mut o = String::new();
            let mut skip = false;
            for ch in d.chars() {
                if ch == 'V' { skip = true; o.push(ch); continue; }
                if skip && (ch.is_ascii_digit() || ch == '-') { continue; }
                skip = false;
                o.push(ch);
            }
            o
        };
        let form = strip(format!("{:?}", self.tree[t]));
        for kind in 0..7 {
            let before = snapshot(&self.tree[t])?;
            let op = OptRanking(&rk, op_div);
            let tr = &self.tree[t];
            let want: Vec<(Raw, i64)> = match kind {
                0 => collect(tr.iter(), 1 << 20)?,
                1 => collect(tr.filter_iter(FW::<W>(&f, Default::default())), 1 << 20)?,
                2 => collect(tr.iter_asc_by(&rk), 1 << 20)?,
                3 => collect(tr.filter_iter_asc_by(&op), 1 << 20)?,
                4 => tr.min_by(&rk).map(|(k, v)| (*k.get(), v.get())).into_iter().collect(),
                5 => tr.filter_min_by(&op).map(|(k, v)| (*k.get(), v.get())).into_iter().collect(),
                _ => collect((&self.tree[t]).into_iter(), 1 << 20)?,
            };
            let some = r.chance(1, 3);
            let (way, jump) = (r.below(8), r.below(4));
            let at = Cell::new(0usize);
            let mut picked: Vec<usize> = vec![];
            macro_rules! walk { ($it:expr, $visit:ident) => {{
                let mut it = $it;
                let (lo, hi) = it.size_hint();
                ensure!(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), "a mutable iterator over {} entries has size_hint {:?}", want.len(), (lo, hi));
                match way {
                    0 => it.try_fold((), |_, (k, v)| { picked.push(at.get()); at.set(at.get() + 1); $visit(k, v) })?,
                    1 => loop {
                        let k = (at.get() as u64 * 7 + jump) % 4;
                        match it.nth(k as usize) {
                            Some((key, v)) => { at.set(at.get() + k as usize); picked.push(at.get()); at.set(at.get() + 1); $visit(key, v)? }
                            None => {
                                ensure!(at.get() + k as usize >= want.len(), "nth({}) of a mutable iterator ends after {} of {} entries", k, at.get(), want.len());
                                break;
                            }
                        }
                    },
                    2 => if let Some((k, v)) = it.last() { picked.push(want.len().wrapping_sub(1)); $visit(k, v)? } else { ensure!(want.is_empty(), "last() of a mutable iterator over {} entries gives nothing", want.len()) },
                    3 => {
                        let mut res = Ok(());
                        it.for_each(|(k, v)| { picked.push(at.get()); at.set(at.get() + 1); if res.is_ok() { res = $visit(k, v); } });
                        res?
                    }
                    4 => { let c = it.count(); ensure!(c == want.len(), "count() of a mutable iterator is {} instead of {}", c, want.len()); }
                    _ => for (k, v) in it { picked.push(at.get()); at.set(at.get() + 1); $visit(k, v)? },
                }
            }}; }
            macro_rules! one { ($it:expr, $visit:ident) => { if let Some((k, v)) = $it { picked.push(0); $visit(k, v)? } else { ensure!(want.is_empty(), "a mutable minimum query gives nothing"); } }; }
            let cnt = Cell::new(0i64);
            let mut seen = vec![];
            let mut exp = before.clone();
            {
                let mut visit = |k: &TK<W>, v: &mut TV| -> Res {
                    let i = cnt.get();
                    cnt.set(i + 1);
                    ensure!(i <= before.len() as i64, "a mutable iterator yields too many entries");
                    let e = (*k.get(), v.get());
                    seen.push(e);
                    if !some || i % 2 == 0 {
                        let nv = base + kind * 100_000 + i;
                        match exp.iter_mut().find(|x| **x == e) {
                            Some(x) => x.1 = nv,
                            None => return Err(format!("a mutable form reaches {:?}, which is not an entry", e)),
                        }
                        v.v = nv;
                    }
                    Ok(())
                };
                let tr = &mut self.tree[t];
                match kind {
                    0 => walk!(tr.iter_mut(), visit),
                    1 => walk!(tr.filter_iter_mut(FW::<W>(&f, Default::default())), visit),
                    2 => walk!(tr.iter_asc_by_mut(&rk), visit),
                    3 => walk!(tr.filter_iter_asc_by_mut(&op), visit),
                    4 => one!(tr.min_by_mut(&rk), visit),
                    5 => one!(tr.filter_min_by_mut(&op), visit),
                    _ => walk!((&mut *tr).into_iter(), visit),
                }
            }
            let all = want.len();
            let want: Vec<_> = picked.iter().filter_map(|i| want.get(*i)).cloned().collect();
            ensure!(picked.len() == all || (1..5).contains(&way), "a mutable form visits {} entries where the immutable form visits {}", picked.len(), all);
            let names = ["iter_mut", "filter_iter_mut", "iter_asc_by_mut", "filter_iter_asc_by_mut", "min_by_mut", "filter_min_by_mut", "&mut iteration"];
            ensure!(seen == want, "{} visits {} entries where the immutable form visits {}, or in another order", names[kind as usize], seen.len(), want.len());
            let after = snapshot(&self.tree[t])?;
            ensure!(after == exp, "values written through {} are not those read later: {}", names[kind as usize], diff(&after, &exp));
            ensure!(strip(format!("{:?}", self.tree[t])) == form, "{} changed a key or bounds", names[kind as usize]);
        }
        for c in self.probes(t, r, 6) {
            let before = snapshot(&self.tree[t])?;
            let mut exp = before.clone();
            let g = self.tree[t].get(&TK::<W>::new(&c)).map(|v| v.get());
            let nv = self.next_v;
            self.next_v += 1;
            let m = self.tree[t].get_mut(&TK::<W>::new(&c)).map(|v| {
                let o = v.get();
                v.v = nv;
                o
            });
            ensure!(g == m, "mutable lookup of {:?} reaches {:?}, the immutable one {:?}", c, m, g);
            if let Some(o) = m {
                match exp.iter_mut().find(|e| **e == (c, o)) {
                    Some(e) => e.1 = nv,
                    None => return Err(format!("mutable lookup of {:?} reaches another key's value", c)),
                }
            }
            let after = snapshot(&self.tree[t])?;
            ensure!(after == exp, "a value written through the mutable lookup of {:?} is not read back: {}", c, diff(&after, &exp));
        }
        self.model[t] = snapshot(&self.tree[t])?;
        Ok(())
    }

    fn everything(&mut self, r: &mut Rng) -> Res {
        let n = self.model[0].len();
        let f = self.set_filter(0, r);
        let rk = self.ranking(0, r);
        let op = OptRanking(&rk, 3);
        let lim = n + 64;
        macro_rules! count { ($e:expr, $s:expr) => {{ let c = $e.take(lim).count(); ensure!(c < lim, "{} does not end", $s); }}; }
        count!(self.tree[0].iter(), "iter");
        count!(self.tree[0].iter_mut(), "iter_mut");
        count!(self.tree[0].filter_iter(FW::<W>(&f, Default::default())), "filter_iter");
        count!(self.tree[0].filter_iter_mut(FW::<W>(&f, Default::default())), "filter_iter_mut");
        count!(self.tree[0].iter_asc_by(&rk), "iter_asc_by");
        count!(self.tree[0].iter_asc_by_mut(&rk), "iter_asc_by_mut");
        count!(self.tree[0].filter_iter_asc_by(&op), "filter_iter_asc_by");
        count!(self.tree[0].filter_iter_asc_by_mut(&op), "filter_iter_asc_by_mut");
        let _ = (self.tree[0].min_by(&rk).is_some(), self.tree[0].filter_min_by(&op).is_some(), self.tree[0].len(), self.tree[0].is_empty());
        for c in self.probes(0, r, 4) {
            let _ = self.tree[0].get(&TK::<W>::new(&c));
            let _ = self.tree[0].get_mut(&TK::<W>::new(&c));
        }
        if n <= 40 {
            let mut other: Tree<W> = RTree::new(RTreeConfig { min_children: self.cfg[1].0, max_children: self.cfg[1].1 });
            let mut m = vec![];
            let pn = [0, 1, 5, 20][r.below(4) as usize];
            for (i, c) in self.probes(0, r, pn).into_iter().enumerate() {
                other.insert(TK::new(&c), TV::new(i as i64));
                m.push((c, i as i64));
            }
            let f = RelFilter { seed: 1, den: 2, mode: 1, l: &self.model[0], r: &m, _p: Default::default() };
            let lim = n * m.len() + 64;
            let c = self.tree[0].join::<_, _, _, TK<W>, TK<W>, _>(&other, f.clone()).take(lim).count();
            ensure!(c < lim, "join does not end");
            let mut rows = 0;
            for (_, row) in self.tree[0].left_join::<_, _, _, TK<W>, TK<W>, _>(&other, f.clone()) {
                rows += 1;
                ensure!(rows <= n, "left join does not end");
                let c = row.take(lim).count();
                ensure!(c < lim, "a row of the left join does not end");
            }
            let _ = other.left_join::<_, _, _, TK<W>, TK<W>, _>(&self.tree[0], RelFilter { l: f.r, r: f.l, ..f.clone() }).take(m.len() + 1).count();
        }
        let c = self.tree[0].clone();
        drop(c);
        Ok(())
    }
}

/// Tokens alive without scanning: kept by the ledger length and drops. (Small cases: a scan is fine.)
fn ledger_live_cheap() -> usize {
    ledger_live()
}

pub fn run<W: World>(case: &Case, live: &dyn Fn() -> usize) -> Res {
    ledger_reset();
    let before = live();
    let res = run_inner::<W>(case);
    if let Some(f) = take_fault() {
        return Err(f.into());
    }
    res?;
    let l = ledger_live();
    if l != 0 {
        return Err(format!("{} keys and values are still alive after everything was dropped", l));
    }
    let after = live();
    if after != before {
        return Err(format!("{} allocations were not released", after as i64 - before as i64));
    }
    Ok(())
}

fn run_inner<W: World>(case: &Case) -> Res {
    let p = &case.params;
    let mk = |a: i64, b: i64| RTree::new(RTreeConfig { min_children: a as usize, max_children: b as usize });
    let mut s = Run::<W> {
        prop: case.prop.clone(),
        tree: [mk(p[0], p[1]), mk(p[2], p[3])],
        model: [vec![], vec![]],
        cfg: [(p[0] as usize, p[1] as usize), (p[2] as usize, p[3] as usize)],
        next_v: 1,
    };
    for (i, o) in case.ops.iter().enumerate() {
        let r = if o[1] == 3 { s.checkpoint(o[2]) } else { s.op(o) };
        match r {
            Err(e) if e == "?" => return Ok(()),
            Err(e) => return Err(format!("at operation {}: {}", i, e)),
            Ok(()) => {}
        }
        if let Some(f) = take_fault() {
            return Err(format!("at operation {}: {}", i, f));
        }
    }
    Ok(())
}
