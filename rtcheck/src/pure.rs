//! Stateless checks: boxes (C12), supplied filters and rankings (C13), lines, rays and spheres (C14).
use crate::case::*;
use crate::exec::Res;
use noisy_float::types::{n64, N64};
use num_traits::Bounded as NB;
use rusty_rtree::bounds::{Bounded, Bounds, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::line::Line;
use rusty_rtree::geom::ray::Ray;
use rusty_rtree::geom::sphere::Sphere;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, Ranking};
use rusty_rtree::vector::SVec;
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
const MINI: i64 = -3_000_000_000;
const MAXI: i64 = 3_000_000_000;

pub trait Scalar:
    Clone + Ord + Debug + NB + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Into<f64> + Copy + 'static
{
    const SIGNED: bool;
    fn of(x: i64) -> Self;
}
macro_rules! int {
    ($t:ty, $s:expr) => {
        impl Scalar for $t {
            const SIGNED: bool = $s;
            fn of(x: i64) -> Self {
                if x <= MINI { <$t>::MIN } else if x >= MAXI { <$t>::MAX } else if $s { x as $t } else { (x + 100) as $t }
            }
        }
    };
}
int!(i8, true);
int!(i32, true);
int!(u8, false);
impl Scalar for N64 {
    const SIGNED: bool = true;
    fn of(x: i64) -> Self {
        if x <= MINI { <N64 as NB>::min_value() } else if x >= MAXI { <N64 as NB>::max_value() } else { n64(x as f64 / 2.0) }
    }
}

fn vec<N: Scalar, const D: usize>(p: &[i64], i: usize) -> [N; D] {
    std::array::from_fn(|d| N::of(p.get(2 + i * D + d).copied().unwrap_or(0)))
}
fn boxes<N: Scalar, const D: usize>(p: &[i64], i: usize) -> ([N; D], [N; D]) {
    let (a, b) = (vec::<N, D>(p, i), vec::<N, D>(p, i + 1));
    (std::array::from_fn(|d| a[d].min(b[d])), std::array::from_fn(|d| a[d].max(b[d])))
}
fn bx<N: Scalar, const D: usize>(b: &([N; D], [N; D])) -> SAABB<N, D> {
    AABB { min: SVec(b.0), max: SVec(b.1) }
}
fn same<N: Scalar, const D: usize>(a: &SAABB<N, D>, b: &([N; D], [N; D])) -> bool {
    a.min.0 == b.0 && a.max.0 == b.1
}

fn aabb<N: Scalar, const D: usize>(p: &[i64]) -> Res {
    let a = boxes::<N, D>(p, 0);
    let b = boxes::<N, D>(p, 2);
    let c = boxes::<N, D>(p, 3);
    let q: [N; D] = vec(p, 4);
    let (ba, bb, bc, pq) = (bx(&a), bx(&b), bx(&c), SVec(q));
    let inp = (0..D).all(|d| a.0[d] <= q[d] && q[d] <= a.1[d]);
    let inb = (0..D).all(|d| a.0[d] <= b.0[d] && b.1[d] <= a.1[d]);
    let ovl = (0..D).all(|d| (0..1).any(|_| !(a.1[d] < b.0[d]) && !(b.1[d] < a.0[d])));
    ensure!(Contains::<SVec<N, D>>::contains(&ba, &pq) == inp, "{:?} contains point {:?}: expected {}", ba, pq, inp);
    ensure!(Contains::<SAABB<N, D>>::contains(&ba, &bb) == inb, "{:?} contains {:?}: expected {}", ba, bb, inb);
    ensure!(Intersects::<SVec<N, D>>::intersects(&ba, &pq) == inp, "{:?} intersects point {:?}: expected {}", ba, pq, inp);
    ensure!(Intersects::<SAABB<N, D>>::intersects(&pq, &ba) == inp, "point {:?} intersects {:?}: expected {}", pq, ba, inp);
    ensure!(Intersects::<SAABB<N, D>>::intersects(&ba, &bb) == ovl, "{:?} intersects {:?}: expected {}", ba, bb, ovl);
    let u = (std::array::from_fn(|d| a.0[d].min(b.0[d])), std::array::from_fn(|d| a.1[d].max(b.1[d])));
    let bu = <SAABB<N, D> as Bounds>::union(&ba, &bb);
    ensure!(same(&bu, &u), "union of {:?} and {:?} is {:?}", ba, bb, bu);
    let u3 = (std::array::from_fn(|d| u.0[d].min(c.0[d])), std::array::from_fn(|d| u.1[d].max(c.1[d])));
    let b3 = <SAABB<N, D> as Bounds>::union_all(vec![ba.clone(), bb.clone(), bc.clone()]);
    ensure!(same(&b3, &u3), "union of {:?}, {:?} and {:?} is {:?}", ba, bb, bc, b3);
    let b1 = <SAABB<N, D> as Bounds>::union_all(Some(ba.clone()));
    ensure!(same(&b1, &a), "union of {:?} alone is {:?}", ba, b1);
    let e = <SAABB<N, D> as Bounds>::empty();
    for r in [<SAABB<N, D> as Bounds>::union(&ba, &e), <SAABB<N, D> as Bounds>::union(&e, &ba)] {
        ensure!(same(&r, &a), "union of {:?} and the empty box is {:?}", ba, r);
    }
    let e2 = <SAABB<N, D> as Bounds>::union_all(None);
    let r = <SAABB<N, D> as Bounds>::union(&ba, &e2);
    ensure!(same(&r, &a), "union of {:?} and the union of no boxes is {:?}", ba, r);
    let l = Line(SVec(vec::<N, D>(p, 0)), SVec(vec::<N, D>(p, 1)));
    let lb: SAABB<N, D> = l.bounds();
    ensure!((0..D).all(|d| lb.min[d] <= a.0[d] && lb.max[d] >= a.1[d]), "bounds of {:?} are {:?}", l, lb);
    let pb: SAABB<N, D> = Bounded::<SAABB<N, D>>::bounds(&pq);
    ensure!((0..D).all(|d| pb.min[d] <= q[d] && pb.max[d] >= q[d]), "bounds of {:?} are {:?}", pq, pb);
    let ob: SAABB<N, D> = Bounded::<SAABB<N, D>>::bounds(&ba);
    ensure!((0..D).all(|d| ob.min[d] <= a.0[d] && ob.max[d] >= a.1[d]), "bounds of {:?} are {:?}", ba, ob);
    let small = p[2..].iter().all(|x| x.abs() <= 20);
    if small {
        let rad = p.last().unwrap().abs();
        let radius = if N::SIGNED { N::of(rad) } else { N::of(rad - 100) };
        let s = Sphere { center: SVec(q), radius };
        let sb: SAABB<N, D> = s.bounds();
        let r: f64 = radius.into();
        for d in 0..D {
            let (x, lo, hi): (f64, f64, f64) = (q[d].into(), sb.min[d].into(), sb.max[d].into());
            ensure!(lo <= x - r && hi >= x + r, "bounds of the sphere at {:?} with radius {} are {:?}", pq, r, sb);
        }
    }
    Ok(())
}

fn tk<B, K, F: SpatialFilter<B, K>>(f: &F, k: &K) -> bool {
    f.test_key(k)
}
fn tb<B, K, F: SpatialFilter<B, K>>(f: &F, _: &K, b: &B) -> bool {
    f.test_bounds(b)
}
struct Rel(u64);
impl<B: Debug, K: Debug> JoinFilter<B, B, K, K> for Rel {
    fn test_bounds(&self, a: &B, b: &B) -> bool {
        hs(&format!("{:?}|{:?}", a, b), self.0) % 3 == 0
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        hs(&format!("{:?}&{:?}", a, b), self.0) % 2 == 0
    }
}
fn hs(s: &str, seed: u64) -> u64 {
    let h = s.bytes().fold(seed, |a, b| (a ^ b as u64).wrapping_mul(0x100_0000_01B3).rotate_left(9));
    Rng::new(h).next() >> 7
}

fn filters<N: Scalar, const D: usize>(p: &[i64]) -> Res
where
    SVec<N, D>: Debug,
{
    // boxes a (space), k (key), o (grows the key's bounds)
    let a = bx(&boxes::<N, D>(p, 0));
    let k = bx(&boxes::<N, D>(p, 2));
    let pt = SVec(vec::<N, D>(p, 4));
    let o = vec::<N, D>(p, 5);
    let line = Line(SVec(vec::<N, D>(p, 0)), SVec(vec::<N, D>(p, 1)));
    let kline = Line(SVec(vec::<N, D>(p, 2)), SVec(vec::<N, D>(p, 3)));
    let rad = N::of(p.last().unwrap().abs());
    let grow = |b: &SAABB<N, D>| -> SAABB<N, D> {
        AABB {
            min: SVec(std::array::from_fn(|d| b.min[d].min(o[d]))),
            max: SVec(std::array::from_fn(|d| b.max[d].max(o[d]))),
        }
    };
    macro_rules! law {
        ($name:expr, $f:expr, $key:expr, $kb:expr) => {{
            let f = $f;
            let kb: SAABB<N, D> = $kb;
            if tk::<SAABB<N, D>, _, _>(&f, &$key) {
                for b in [kb.clone(), grow(&kb)] {
                    ensure!(
                        tb(&f, &$key, &b),
                        "{} accepts a key but not the bounds {:?}, which contain the key's bounds {:?}",
                        $name, b, kb
                    );
                }
            }
        }};
    }
    let pb = AABB { min: pt.clone(), max: pt.clone() };
    let lb = bx(&boxes::<N, D>(p, 2));
    type B<N, const D: usize> = SAABB<N, D>;
    law!(format!("IntersectsFilter({:?}) on point {:?}", a, pt), IntersectsFilter::new(a.clone()), pt, pb.clone());
    law!(format!("IntersectsFilter({:?}) on box {:?}", a, k), IntersectsFilter::new(a.clone()), k, k.clone());
    law!(format!("IntersectsFilter({:?}) on segment {:?}", a, kline), IntersectsFilter::new(a.clone()), kline, lb.clone());
    law!(format!("IntersectsFilter(point {:?}) on box {:?}", pt, k), IntersectsFilter::new(pt.clone()), k, k.clone());
    law!(format!("IntersectsFilter(segment {:?}) on box {:?}", line, k), IntersectsFilter::new(line.clone()), k, k.clone());
    law!(format!("IntersectsFilter(ray {:?}) on box {:?}", line, k), IntersectsFilter::new(Ray { origin: line.0.clone(), n: line.1.clone() }), k, k.clone());
    law!(format!("BoundedIntersectsFilter({:?}) on point {:?}", a, pt), BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(a.clone()), pt, pb.clone());
    law!(format!("BoundedIntersectsFilter({:?}) on box {:?}", a, k), BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(a.clone()), k, k.clone());
    law!(format!("BoundedIntersectsFilter({:?}) on segment {:?}", a, kline), BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(a.clone()), kline, lb.clone());
    law!(format!("BoundedIntersectsFilter(point {:?}) on box {:?}", pt, k), BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(pt.clone()), k, k.clone());
    law!(format!("BoundedIntersectsFilter(segment {:?}) on box {:?}", line, k), BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(line.clone()), k, k.clone());
    law!(format!("BoundedIntersectsFilter(sphere at {:?}, radius {:?}) on point {:?}", line.0, rad, pt), BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(Sphere { center: line.0.clone(), radius: rad }), pt, pb.clone());
    law!(format!("ContainsFilter({:?}) on point {:?}", a, pt), ContainsFilter::new(a.clone()), pt, pb.clone());
    law!(format!("ContainsFilter({:?}) on box {:?}", a, k), ContainsFilter::new(a.clone()), k, k.clone());
    law!(format!("BoundedContainsFilter({:?}) on point {:?}", a, pt), BoundedContainsFilter::<B<N, D>, _>::new_bounded(a.clone()), pt, pb.clone());
    law!(format!("BoundedContainsFilter({:?}) on box {:?}", a, k), BoundedContainsFilter::<B<N, D>, _>::new_bounded(a.clone()), k, k.clone());
    law!("NoFilter", NoFilter, k, k.clone());
    ensure!(SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::test_key(&NoFilter, &k), "NoFilter rejects a key");
    // the filters accept what their names say
    let (ai, ac): (bool, bool) = (a.intersects(&k), Contains::<SAABB<N, D>>::contains(&a, &k));
    macro_rules! means {
        ($name:expr, $f:expr, $key:expr, $want:expr) => {
            ensure!(tk::<SAABB<N, D>, _, _>(&$f, &$key) == $want, "{}: expected {} for {:?}", $name, $want, $key)
        };
    }
    means!("IntersectsFilter", IntersectsFilter::new(a.clone()), k, ai);
    means!("BoundedIntersectsFilter", BoundedIntersectsFilter::<B<N, D>, _>::new_bounded(a.clone()), k, ai);
    means!("ContainsFilter", ContainsFilter::new(a.clone()), k, ac);
    means!("BoundedContainsFilter", BoundedContainsFilter::<B<N, D>, _>::new_bounded(a.clone()), k, ac);
    // a left join's row filter agrees with the join filter
    let seed = p.iter().fold(3u64, |h, x| (h ^ *x as u64).wrapping_mul(31));
    let (key, other) = (a.clone(), k.clone());
    let jf = JoiningFilter::<SAABB<N, D>, _, _>::new(&key, Rel(seed));
    let want = JoinFilter::<SAABB<N, D>, SAABB<N, D>, SAABB<N, D>, SAABB<N, D>>::test_key(&Rel(seed), &key, &other);
    ensure!(SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::test_key(&jf, &other) == want, "JoiningFilter({:?}) on key {:?}: expected {}", key, other, want);
    // test_bounds must accept whenever the join filter accepts the pair of bounds
    let gb = grow(&k);
    let want = JoinFilter::<SAABB<N, D>, SAABB<N, D>, SAABB<N, D>, SAABB<N, D>>::test_bounds(&Rel(seed), &key, &gb);
    let got = SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::test_bounds(&jf, &gb);
    ensure!(got == want, "JoiningFilter({:?}) on bounds {:?}: expected {}", key, gb, want);
    // ranking
    let rk = EuclideanDistanceRanking::<SVec<N, D>, N>::new(SVec(vec::<N, D>(p, 1)));
    let rkp = Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&rk, &pt);
    for b in [pb.clone(), grow(&pb)] {
        let m = Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&rk, &b);
        ensure!(m <= rkp, "the distance ranking gives point {:?} rank {:?} but bounds {:?} rank {:?}", pt, rkp, b, m);
    }
    let rkb = Ranking::<SAABB<N, D>, SAABB<N, D>>::rank_key(&rk, &k);
    for b in [k.clone(), grow(&k)] {
        let m = Ranking::<SAABB<N, D>, SAABB<N, D>>::bounds_min(&rk, &b);
        ensure!(m <= rkb, "the distance ranking gives box {:?} rank {:?} but bounds {:?} rank {:?}", k, rkb, b, m);
    }
    Ok(())
}

/// a/b < c/d for positive denominators
fn less(a: (i128, i128), b: (i128, i128)) -> bool {
    a.0 * b.1 < b.0 * a.1
}
/// Whether the line (ray, if `open`) from `o` along `d` meets the interior of the box, and whether it has a point in common with it. Exact.
fn exact(lo: &[i64], hi: &[i64], o: &[i64], d: &[i64], open: bool) -> (bool, bool) {
    let (mut l, mut u): (Option<(i128, i128)>, Option<(i128, i128)>) = (None, None);
    let (mut strict, mut closed) = (true, true);
    for k in 0..lo.len() {
        let (mut a, mut c, mut d) = ((lo[k] - o[k]) as i128, (hi[k] - o[k]) as i128, d[k] as i128);
        if d == 0 {
            strict &= a < 0 && 0 < c;
            closed &= a <= 0 && 0 <= c;
        } else {
            if d < 0 {
                (a, c, d) = (-c, -a, -d);
            }
            if l.map_or(true, |l| less(l, (a, d))) {
                l = Some((a, d));
            }
            if u.map_or(true, |u| less((c, d), u)) {
                u = Some((c, d));
            }
        }
    }
    if let (Some(l), Some(u)) = (l, u) {
        strict &= less(l, u) && less((0, 1), u) && (open || less(l, (1, 1)));
        closed &= !less(u, l) && !less(u, (0, 1)) && (open || !less((1, 1), l));
    }
    (strict, closed)
}
fn lines<N: Scalar, const D: usize>(p: &[i64]) -> Res {
    let raw = |i: usize| -> Vec<i64> { (0..D).map(|d| p.get(2 + i * D + d).copied().unwrap_or(0)).collect() };
    let (r0, r1, o, e) = (raw(0), raw(1), raw(2), raw(3));
    let lo: Vec<i64> = (0..D).map(|d| r0[d].min(r1[d])).collect();
    let hi: Vec<i64> = (0..D).map(|d| r0[d].max(r1[d])).collect();
    let b = bx(&boxes::<N, D>(p, 0));
    let (po, pe) = (SVec(vec::<N, D>(p, 2)), SVec(vec::<N, D>(p, 3)));
    let line = Line(po.clone(), pe.clone());
    let dl: Vec<i64> = (0..D).map(|d| e[d] - o[d]).collect();
    let (strict, closed) = exact(&lo, &hi, &o, &dl, false);
    for got in [Intersects::<SAABB<N, D>>::intersects(&line, &b), Intersects::<Line<SVec<N, D>>>::intersects(&b, &line)] {
        ensure!(got || !strict, "{:?} passes through the interior of {:?}: expected true", line, b);
        ensure!(!got || closed, "{:?} is apart from {:?}: expected false", line, b);
    }
    let ray = Ray { origin: po.clone(), n: pe.clone() };
    let (strict, closed) = exact(&lo, &hi, &o, &e, true);
    for got in [Intersects::<SAABB<N, D>>::intersects(&ray, &b), Intersects::<Ray<N, D>>::intersects(&b, &ray)] {
        ensure!(got || !strict, "the ray from {:?} along {:?} passes through the interior of {:?}: expected true", po, pe, b);
        ensure!(!got || closed, "the ray from {:?} along {:?} is apart from {:?}: expected false", po, pe, b);
    }
    if D > 0 {
        let r = *p.last().unwrap();
        let sphere = Sphere { center: po.clone(), radius: N::of(r) };
        let dist: i128 = dl.iter().map(|x| *x as i128 * *x as i128).sum();
        let want = dist <= r as i128 * r as i128;
        for got in [Intersects::<SVec<N, D>>::intersects(&sphere, &pe), Intersects::<Sphere<N, D>>::intersects(&pe, &sphere)] {
            ensure!(got == want, "the sphere at {:?} with radius {:?} and the point {:?}: expected {}", po, sphere.radius, pe, want);
        }
    }
    Ok(())
}
fn gen_lines(seed: u64, n: u64) -> Case {
    let mut params = vec![0];
    let small = 5u64.pow(4);
    let both = 5u64.pow(8);
    let list = |params: &mut Vec<i64>, mut m: u64, k: u64| {
        for _ in 0..k {
            params.push((m % 5) as i64 - 2);
            m /= 5;
        }
    };
    if n < small * 4 {
        params.push(1);
        list(&mut params, n / 4, 4);
        params.push((n % 4) as i64);
    } else if n - small * 4 < both {
        // in an order that mixes near and far
        let m = (n - small * 4).wrapping_mul(131_071) % both;
        params.push(2);
        list(&mut params, m, 8);
        params.push((n % 4) as i64);
    } else {
        let r = &mut Rng::new(seed.wrapping_mul(0x9E37_79B9).wrapping_add(n));
        let kinds: &[(i64, i64)] = &[(0, 1), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (1, 3), (3, 1), (3, 2), (3, 3), (0, 2), (0, 3), (0, 5), (0, 7)];
        let (t, d) = kinds[r.below(kinds.len() as u64) as usize];
        params[0] = t;
        params.push(d);
        let span = [1, 2, 3, 5, 20, if t == 1 { 20 } else { 1000 }, if t == 1 { 10 } else { 400_000 }][r.below(7) as usize];
        for _ in 0..4 * d {
            params.push(if r.chance(1, 8) { 0 } else { r.range(-span, span) });
        }
        let top = if r.chance(1, 2) { 6 } else { span };
        params.push(r.range(0, top));
    }
    Case { prop: "C14".into(), world: "pure:lines".into(), params, ops: vec![] }
}

pub fn run(case: &Case) -> Res {
    let p = &case.params;
    match case.world.as_str() {
        "pure:lines" => match (p[0], p[1]) {
            (0, 1) => lines::<i32, 1>(p),
            (0, 2) => lines::<i32, 2>(p),
            (0, 3) => lines::<i32, 3>(p),
            (0, 4) => lines::<i32, 4>(p),
            (0, 5) => lines::<i32, 5>(p),
            (0, 7) => lines::<i32, 7>(p),
            (1, 1) => lines::<i8, 1>(p),
            (1, 2) => lines::<i8, 2>(p),
            (1, 3) => lines::<i8, 3>(p),
            (3, 1) => lines::<N64, 1>(p),
            (3, 2) => lines::<N64, 2>(p),
            (3, 3) => lines::<N64, 3>(p),
            _ => Ok(()),
        },
        "pure:boxes" => match (p[0], p[1]) {
            (0, 0) => aabb::<i32, 0>(p),
            (0, 1) => aabb::<i32, 1>(p),
            (0, 2) => aabb::<i32, 2>(p),
            (0, 3) => aabb::<i32, 3>(p),
            (0, 4) => aabb::<i32, 4>(p),
            (0, 5) => aabb::<i32, 5>(p),
            (0, 9) => aabb::<i32, 9>(p),
            (1, 6) => aabb::<i8, 6>(p),
            (1, 1) => aabb::<i8, 1>(p),
            (1, 2) => aabb::<i8, 2>(p),
            (2, 1) => aabb::<u8, 1>(p),
            (2, 3) => aabb::<u8, 3>(p),
            (3, 1) => aabb::<N64, 1>(p),
            (3, 2) => aabb::<N64, 2>(p),
            _ => Ok(()),
        },
        "pure:filters" => match (p[0], p[1]) {
            (0, 1) => filters::<i32, 1>(p),
            (0, 2) => filters::<i32, 2>(p),
            (0, 3) => filters::<i32, 3>(p),
            (0, 4) => filters::<i32, 4>(p),
            (0, 6) => filters::<i32, 6>(p),
            (3, 1) => filters::<N64, 1>(p),
            (3, 2) => filters::<N64, 2>(p),
            _ => Ok(()),
        },
        _ => Ok(()),
    }
}

pub fn gen(prop: &str, seed: u64, n: u64) -> Case {
    if prop == "C14" {
        return gen_lines(seed, n);
    }
    let boxes = prop == "C12";
    let slots = if boxes { 5 } else { 6 };
    let world = if boxes { "pure:boxes" } else { "pure:filters" };
    let mut params = vec![];
    let exh = 5u64.pow(slots as u32);
    if n < exh {
        params.push(0);
        params.push(1);
        let mut m = n;
        for _ in 0..slots {
            params.push((m % 5) as i64 - 2);
            m /= 5;
        }
        params.push((n % 3) as i64);
    } else {
        let r = &mut Rng::new(seed.wrapping_mul(0x9E37_79B9).wrapping_add(n));
        let kinds: &[(i64, i64)] = if boxes {
            &[(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (2, 1), (2, 3), (3, 1), (3, 2), (0, 2), (0, 3), (0, 5), (0, 9), (1, 6)]
        } else {
            &[(0, 1), (0, 2), (0, 3), (3, 1), (3, 2), (0, 2), (0, 3), (0, 4), (0, 6)]
        };
        let (t, d) = kinds[r.below(kinds.len() as u64) as usize];
        params.push(t);
        params.push(d);
        let span = [1, 2, 3, 5, 20, if t != 0 { 20 } else if boxes { 2_000_000_000 } else { 4000 }][r.below(6) as usize];
        let ext = boxes && r.chance(1, 4);
        for _ in 0..slots as i64 * d {
            params.push(if ext && r.chance(1, 4) { if r.chance(1, 2) { MINI } else { MAXI } } else { r.range(-span, span) });
        }
        params.push(r.range(0, 6));
    }
    Case { prop: prop.into(), world: world.into(), params, ops: vec![] }
}
