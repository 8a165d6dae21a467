//! Tracked keys and values, and the bounds/key types ("worlds") the checks run on.
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::geom::line::Line;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

pub type Raw = [i64; 6];

thread_local! {
    static LEDGER: RefCell<Vec<u8>> = RefCell::new(Vec::with_capacity(1 << 16));
    static FAULT: Cell<Option<&'static str>> = const { Cell::new(None) };
}
pub fn fault(msg: &'static str) {
    FAULT.with(|f| {
        if f.get().is_none() {
            f.set(Some(msg))
        }
    })
}
pub fn take_fault() -> Option<&'static str> {
    FAULT.with(|f| f.take())
}
pub fn ledger_reset() {
    LEDGER.with(|l| l.borrow_mut().clear());
    take_fault();
}
/// Number of tokens alive.
pub fn ledger_live() -> usize {
    LEDGER.with(|l| l.borrow().iter().filter(|s| **s == 1).count())
}
const MAGIC: u64 = 0x5EED_0F0D_DEC0_DE00;
/// One owned key or value; creation and release are entered in the ledger.
pub struct Token {
    id: usize,
    magic: u64,
}
impl Token {
    pub fn new() -> Self {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.push(1);
            let id = l.len() - 1;
            Token { id, magic: MAGIC ^ id as u64 }
        })
    }
    pub fn check(&self) {
        let ok = self.magic == MAGIC ^ self.id as u64
            && LEDGER.with(|l| l.borrow().get(self.id).copied()) == Some(1);
        if !ok {
            fault("a key or value was used that is not alive (uninitialised, moved out or dropped)");
        }
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if self.magic != MAGIC ^ self.id as u64 || self.id >= l.len() {
                fault("a key or value was dropped that was never created");
                return;
            }
            if l[self.id] != 1 {
                fault("a key or value was dropped twice");
            }
            l[self.id] = 2;
        })
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        self.check();
        Token::new()
    }
}

/// Needs an alignment no allocation has by chance.
#[repr(align(64))]
pub struct TV {
    pub tok: Token,
    pub v: i64,
}
impl TV {
    pub fn new(v: i64) -> Self {
        TV { tok: Token::new(), v }
    }
    pub fn get(&self) -> i64 {
        if std::hint::black_box(self as *const TV as usize) % 64 != 0 {
            fault("a value is at an address that its type does not allow");
        }
        self.tok.check();
        self.v
    }
}
impl Clone for TV {
    fn clone(&self) -> Self {
        TV { tok: self.tok.clone(), v: self.v }
    }
}
impl Debug for TV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.tok.check();
        write!(f, "V{}", self.v)
    }
}

pub struct TK<W: World> {
    pub tok: Token,
    pub c: Raw,
    pub k: W::K,
}
impl<W: World> TK<W> {
    pub fn new(c: &Raw) -> Self {
        TK { tok: Token::new(), c: *c, k: W::key(c) }
    }
    pub fn get(&self) -> &Raw {
        self.tok.check();
        &self.c
    }
}
impl<W: World> Clone for TK<W> {
    fn clone(&self) -> Self {
        TK { tok: self.tok.clone(), c: self.c, k: self.k.clone() }
    }
}
impl<W: World> Debug for TK<W> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.tok.check();
        write!(f, "K")?;
        for x in self.c.iter() {
            write!(f, "_{}", x)?;
        }
        Ok(())
    }
}
impl<W: World> PartialEq for TK<W> {
    fn eq(&self, o: &Self) -> bool {
        self.tok.check();
        o.tok.check();
        self.k == o.k
    }
}
impl<W: World> Eq for TK<W> {}
impl<W: World> Bounded<W::B> for TK<W> {
    fn bounds(&self) -> W::B {
        self.tok.check();
        self.k.bounds()
    }
}
/// Borrowed form of a key, to exercise lookups by a type other than the key's.
#[repr(transparent)]
pub struct Q<W: World>(pub TK<W>);
impl<W: World> PartialEq for Q<W> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<W: World> Eq for Q<W> {}
impl<W: World> Bounded<W::B> for Q<W> {
    fn bounds(&self) -> W::B {
        self.0.bounds()
    }
}
impl<W: World> Borrow<Q<W>> for TK<W> {
    fn borrow(&self) -> &Q<W> {
        // repr(transparent)
        unsafe { &*(self as *const TK<W> as *const Q<W>) }
    }
}

pub trait World: Sized + 'static {
    type B: Bounds + Volume + Clone + Debug + PartialEq;
    type K: Bounded<Self::B> + Eq + Clone + Debug;
    const NAME: &'static str;
    const DIM: usize;
    /// Keys have extent (two corners) rather than being points.
    const EXTENT: bool;
    /// Corners of a key may be inverted in its defining coordinates (segments).
    const FREE: bool;
    /// Union is the least upper bound.
    const TIGHT: bool;
    fn key(c: &Raw) -> Self::K;
    fn raw(b: &Self::B) -> Raw;
    /// Bounds of the key with defining coordinates `c`, computed independently of the crate.
    fn kraw(c: &Raw) -> Raw {
        let mut r = [0; 6];
        for d in 0..Self::DIM {
            let (a, b) = if Self::EXTENT { (c[d], c[3 + d]) } else { (c[d], c[d]) };
            r[d] = a.min(b);
            r[3 + d] = a.max(b);
        }
        r
    }
}
pub fn covers<W: World>(b: &Raw, k: &Raw) -> bool {
    (0..W::DIM).all(|d| b[d] <= k[d] && b[3 + d] >= k[3 + d])
}
pub fn overlaps<W: World>(a: &Raw, b: &Raw) -> bool {
    (0..W::DIM).all(|d| a[d] <= b[3 + d] && a[3 + d] >= b[d])
}

fn sv<const D: usize>(c: &Raw, off: usize) -> SVec<i32, D> {
    SVec(std::array::from_fn(|i| c[off + i] as i32))
}
fn raw_i<const D: usize>(b: &SAABB<i32, D>) -> Raw {
    let mut r = [0; 6];
    for d in 0..D {
        r[d] = b.min[d] as i64;
        r[3 + d] = b.max[d] as i64;
    }
    r
}
macro_rules! iworld {
    ($n:ident, $name:expr, $d:expr, $k:ty, $ext:expr, $free:expr, $c:ident => $e:expr) => {
        pub struct $n;
        impl World for $n {
            type B = SAABB<i32, $d>;
            type K = $k;
            const NAME: &'static str = $name;
            const DIM: usize = $d;
            const EXTENT: bool = $ext;
            const FREE: bool = $free;
            const TIGHT: bool = true;
            fn key($c: &Raw) -> $k {
                $e
            }
            fn raw(b: &Self::B) -> Raw {
                raw_i(b)
            }
        }
    };
}
iworld!(P1, "point1", 1, SVec<i32, 1>, false, false, c => sv::<1>(c, 0));
iworld!(P2, "point2", 2, SVec<i32, 2>, false, false, c => sv::<2>(c, 0));
iworld!(B1, "box1", 1, SAABB<i32, 1>, true, false, c => AABB { min: sv::<1>(c, 0), max: sv::<1>(c, 3) });
iworld!(B2, "box2", 2, SAABB<i32, 2>, true, false, c => AABB { min: sv::<2>(c, 0), max: sv::<2>(c, 3) });
iworld!(B3, "box3", 3, SAABB<i32, 3>, true, false, c => AABB { min: sv::<3>(c, 0), max: sv::<3>(c, 3) });
iworld!(L2, "line2", 2, Line<SVec<i32, 2>>, true, true, c => Line(sv::<2>(c, 0), sv::<2>(c, 3)));

/// Float coordinates (quarter units, exact).
pub struct F2;
impl World for F2 {
    type B = SAABB<N64, 2>;
    type K = SAABB<N64, 2>;
    const NAME: &'static str = "float2";
    const DIM: usize = 2;
    const EXTENT: bool = true;
    const FREE: bool = false;
    const TIGHT: bool = true;
    fn key(c: &Raw) -> Self::K {
        let f = |x: i64| n64(x as f64 / 4.0);
        AABB { min: SVec([f(c[0]), f(c[1])]), max: SVec([f(c[3]), f(c[4])]) }
    }
    fn raw(b: &Self::B) -> Raw {
        let g = |x: N64| (x.raw() * 4.0) as i64;
        [g(b.min[0]), g(b.min[1]), 0, g(b.max[0]), g(b.max[1]), 0]
    }
}

/// A bounds type whose unions are larger than necessary, as the trait allows.
#[derive(Clone, Debug, PartialEq)]
pub struct Loose {
    pub lo: i64,
    pub hi: i64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Iv(i64, i64);
impl Contains<Loose> for Loose {
    fn contains(&self, o: &Loose) -> bool {
        self.lo <= o.lo && self.hi >= o.hi
    }
}
impl Intersects<Loose> for Loose {
    fn intersects(&self, o: &Loose) -> bool {
        self.lo <= o.hi && self.hi >= o.lo
    }
}
impl Bounds for Loose {
    fn empty() -> Self {
        Loose { lo: i64::MAX, hi: i64::MIN }
    }
    fn union(a: &Self, b: &Self) -> Self {
        if a.lo > a.hi {
            return b.clone();
        }
        if b.lo > b.hi {
            return a.clone();
        }
        let (lo, hi) = (a.lo.min(b.lo), a.hi.max(b.hi));
        Loose { lo: lo - lo.rem_euclid(8), hi: hi + (8 - hi.rem_euclid(8)) % 8 }
    }
    fn union_all(bs: impl IntoIterator<Item = Self>) -> Self {
        bs.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for Loose {
    fn volume(&self) -> N64 {
        n64(self.hi as f64 - self.lo as f64)
    }
}
impl Bounded<Loose> for Iv {
    fn bounds(&self) -> Loose {
        Loose { lo: self.0, hi: self.1 }
    }
}
pub struct Lo;
impl World for Lo {
    type B = Loose;
    type K = Iv;
    const NAME: &'static str = "loose";
    const DIM: usize = 1;
    const EXTENT: bool = true;
    const FREE: bool = false;
    const TIGHT: bool = false;
    fn key(c: &Raw) -> Iv {
        Iv(c[0], c[3])
    }
    fn raw(b: &Loose) -> Raw {
        [b.lo, 0, 0, b.hi, 0, 0]
    }
}
