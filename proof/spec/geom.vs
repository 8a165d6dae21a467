//! assumed: core::array::from_fn and [T; N]::map call the closure once per index and store its result (assume_specification)
//! the scalar obeys one total preorder that PartialOrd, Ord and Clone agree on (slaw; proved for i32, i64, u8, u64, i128; assumed for user scalars and N64)
//! num_traits::Bounded is replaced by a trait with its documented postconditions
//! Bounds::union_all is taken over Iterator instead of IntoIterator (the conversion is dropped); Clone of boxes and vectors keeps coordinates (derived Clone, not verified)
//! Sphere bounds: integer scalars without overflow
//! distances: a clone of a vector is the vector; an array of any D values exists; `map(f).reduce(g).unwrap()` over a slice is a verified helper with the same meaning (map_reduce)
//@ crate
pub assume_specification<T, const N: usize, F: FnMut(usize) -> T>[core::array::from_fn](f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> call_requires(f, (i,)),
    ensures forall|i: usize| i < N ==> call_ensures(f, (i,), #[trigger] r[i as int]);

pub assume_specification<T, const N: usize, F: FnMut(T) -> U, U>[<[T; N]>::map::<F, U>](a: [T; N], f: F) -> (r: [U; N])
    requires forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] a[i],)),
    ensures forall|i: int| 0 <= i < N ==> call_ensures(f, (a[i],), #[trigger] r[i]);

pub broadcast proof fn as_ref_at<A>(s: Seq<A>, k: int)
    requires 0 <= k < s.len(),
    ensures #![trigger s[k], s.as_ref()] s.as_ref()[k] == &s[k],
{
}

pub broadcast proof fn zip_at<A, B>(a: Seq<A>, b: Seq<B>, k: int)
    requires 0 <= k < a.len(), k < b.len(),
    ensures #![trigger a.zip_truncate(b), a[k]] #![trigger a.zip_truncate(b), b[k]] a.zip_truncate(b)[k] == (a[k], b[k]),
{
}

pub mod noisy {
    use super::*;
    use core::cmp::Ordering;
    /// Stands for noisy_float::types::N64: its operations may return anything.
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct N64 { f: f64 }
    impl N64 {
        #[verifier::external_body]
        pub fn neg_infinity() -> N64 { unimplemented!() }
        #[verifier::external_body]
        pub fn cmp(a: &N64, b: &N64) -> Ordering { unimplemented!() }
    }
    impl vstd::std_specs::ops::SubSpecImpl for N64 {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: N64) -> bool { true }
        open spec fn sub_spec(self, rhs: N64) -> N64 { self }
    }
    impl core::ops::Sub for N64 {
        type Output = N64;
        #[verifier::external_body]
        fn sub(self, rhs: N64) -> N64 { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for N64 {
        open spec fn obeys_eq_spec() -> bool { false }
        open spec fn eq_spec(&self, rhs: &N64) -> bool { true }
    }
    impl PartialEq for N64 {
        #[verifier::external_body]
        fn eq(&self, rhs: &N64) -> bool { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for N64 {
        open spec fn obeys_partial_cmp_spec() -> bool { false }
        open spec fn partial_cmp_spec(&self, rhs: &N64) -> Option<Ordering> { None }
    }
    impl PartialOrd for N64 {
        #[verifier::external_body]
        fn partial_cmp(&self, rhs: &N64) -> Option<Ordering> { unimplemented!() }
    }
}

//@ module num_traits
//@ text
use super::*;
/// Stands for num_traits::Bounded; the postconditions are its documentation.
pub trait Bounded: Sized {
    spec fn is_min(x: Self) -> bool;
    spec fn is_max(x: Self) -> bool;
    fn min_value() -> (r: Self) ensures Self::is_min(r);
    fn max_value() -> (r: Self) ensures Self::is_max(r);
}

impl Bounded for i64 {
    open spec fn is_min(x: Self) -> bool { x == i64::MIN }
    open spec fn is_max(x: Self) -> bool { x == i64::MAX }
    fn min_value() -> Self { i64::MIN }
    fn max_value() -> Self { i64::MAX }
}
impl Bounded for i32 {
    open spec fn is_min(x: Self) -> bool { x == i32::MIN }
    open spec fn is_max(x: Self) -> bool { x == i32::MAX }
    fn min_value() -> Self { i32::MIN }
    fn max_value() -> Self { i32::MAX }
}

//@ module vector from src/vector.rs
//@ uses
use super::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::array;
use vstd::std_specs::iter::IteratorSpec;
use core::ops::{Add, AddAssign, Index, IndexMut, Mul, Sub};
use super::{bounds::*, contains::Contains, intersects::Intersects, num_traits};
//@ drop SVec<N,D> as Debug; SVec<N,D> as Eq; SVec<N,D> as AddAssign
//@ drop SVec::zip
//@ rewrite #[inline] ==>
//@ text
broadcast use {super::as_ref_at, super::zip_at};

/// The order of the scalar, as Ord::cmp defines it.
pub open spec fn le<N: Ord>(a: N, b: N) -> bool { a.cmp_spec(&b) != Ordering::Greater }

/// A totally ordered scalar: comparison operators, cmp and clone agree on one total preorder.
pub open spec fn slaw<N: Ord + Clone>() -> bool {
    &&& N::obeys_cmp_spec() && N::obeys_partial_cmp_spec()
    &&& forall|a: N, b: N| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: N, b: N| (#[trigger] a.cmp_spec(&b) != Ordering::Less) == le(b, a) && (a.cmp_spec(&b) != Ordering::Greater) == le(a, b)
    &&& forall|a: N, b: N, c: N| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c)
    &&& forall|a: N, b: N| #[trigger] call_ensures(N::clone, (&a,), b) ==> le(a, b) && le(b, a)
}

pub open spec fn blaw<N: Ord + num_traits::Bounded>() -> bool {
    &&& forall|a: N, b: N| #[trigger] N::is_min(a) ==> #[trigger] le(a, b)
    &&& forall|a: N, b: N| #[trigger] N::is_max(a) ==> #[trigger] le(b, a)
}

pub proof fn scalar_law_holds_for_integers()
    ensures slaw::<i32>(), slaw::<i64>(), slaw::<u8>(), slaw::<u64>(), slaw::<i128>(),
{
}

pub open spec fn same<V: Vector>(a: V, b: V) -> bool {
    forall|k: int| #![trigger a.lek(&b, k)] #![trigger b.lek(&a, k)] 0 <= k < V::dim() ==> a.lek(&b, k) && b.lek(&a, k)
}

/// Cloning a vector keeps every coordinate.
pub open spec fn vclone<V: Vector + Clone>() -> bool {
    forall|a: V, b: V| #[trigger] call_ensures(V::clone, (&a,), b) ==> same(a, b)
}

//@ in Vector
    /// number of coordinates
    spec fn dim() -> nat;
    /// order along coordinate k
    spec fn lek(&self, rhs: &Self, k: int) -> bool;
    /// the scalar is lawful
    spec fn vlaw() -> bool;
    proof fn lek_laws()
        requires Self::vlaw(),
        ensures
            forall|a: Self, b: Self, k: int| 0 <= k < Self::dim() ==> #[trigger] a.lek(&b, k) || b.lek(&a, k),
            forall|a: Self, b: Self, c: Self, k: int| 0 <= k < Self::dim() && #[trigger] a.lek(&b, k) && #[trigger] b.lek(&c, k) ==> a.lek(&c, k);
//@ fn Vector::min_value
    ensures Self::vlaw() ==> forall|x: Self, k: int| 0 <= k < Self::dim() ==> #[trigger] res.lek(&x, k)
//@ fn Vector::max_value
    ensures Self::vlaw() ==> forall|x: Self, k: int| 0 <= k < Self::dim() ==> #[trigger] x.lek(&res, k)
//@ fn Vector::all_le
    ensures Self::vlaw() ==> res == (forall|k: int| 0 <= k < Self::dim() ==> #[trigger] self.lek(rhs, k))
//@ fn Vector::all_ge
    ensures Self::vlaw() ==> res == (forall|k: int| 0 <= k < Self::dim() ==> #[trigger] rhs.lek(self, k))
//@ fn Vector::componentwise_min
    ensures Self::vlaw() ==> forall|k: int| #![trigger res.lek(self, k)] #![trigger self.lek(&res, k)] #![trigger res.lek(rhs, k)] #![trigger rhs.lek(&res, k)] 0 <= k < Self::dim() ==>
        res.lek(self, k) && res.lek(rhs, k) && (self.lek(&res, k) || rhs.lek(&res, k))
        ,Self::vlaw() ==> forall|x: Self, k: int| 0 <= k < Self::dim() && x.lek(self, k) && x.lek(rhs, k) ==> #[trigger] x.lek(&res, k)
//@ fn Vector::componentwise_max
    ensures Self::vlaw() ==> forall|k: int| #![trigger res.lek(self, k)] #![trigger self.lek(&res, k)] #![trigger res.lek(rhs, k)] #![trigger rhs.lek(&res, k)] 0 <= k < Self::dim() ==>
        self.lek(&res, k) && rhs.lek(&res, k) && (res.lek(self, k) || res.lek(rhs, k))
        ,Self::vlaw() ==> forall|x: Self, k: int| 0 <= k < Self::dim() && self.lek(&x, k) && rhs.lek(&x, k) ==> #[trigger] res.lek(&x, k)

//@ in SVec<N,D> as Vector
    open spec fn dim() -> nat { D as nat }
    open spec fn lek(&self, rhs: &Self, k: int) -> bool { le(self.0@[k], rhs.0@[k]) }
    open spec fn vlaw() -> bool { slaw::<N>() && blaw::<N>() }
    proof fn lek_laws() { }
//@ fn SVec<N,D> as Vector::min_value
//@ closure 0 | _i: usize | -> (m: N)
    ensures N::is_min(m)
//@ fn SVec<N,D> as Vector::max_value
//@ closure 0 | _i: usize | -> (m: N)
    ensures N::is_max(m)
//@ fn SVec<N,D> as Vector::all_le
//@ start
        proof { assert forall|k: int| 0 <= k < D implies self.lek(rhs, k) == #[trigger] le(self.0@[k], rhs.0@[k]) by {} }
//@ closure 0 | p: (&N, &N) | -> (r: bool)
    ensures slaw::<N>() ==> r == le(*p.0, *p.1)
//@ fn SVec<N,D> as Vector::all_ge
//@ start
        proof { assert forall|k: int| 0 <= k < D implies rhs.lek(self, k) == #[trigger] le(rhs.0@[k], self.0@[k]) by {} }
//@ closure 0 | p: (&N, &N) | -> (r: bool)
    ensures slaw::<N>() ==> r == le(*p.1, *p.0)
//@ fn SVec<N,D> as Vector::componentwise_min
//@ closure 0 | i: usize | -> (m: N)
    requires i < D
    ensures slaw::<N>() ==> le(m, self.0[i as int]) && le(m, rhs.0[i as int]) && (le(self.0[i as int], m) || le(rhs.0[i as int], m))
        && forall|x: N| le(x, self.0[i as int]) && le(x, rhs.0[i as int]) ==> #[trigger] le(x, m)
//@ fn SVec<N,D> as Vector::componentwise_max
//@ closure 0 | i: usize | -> (m: N)
    requires i < D
    ensures slaw::<N>() ==> le(self.0[i as int], m) && le(rhs.0[i as int], m) && (le(m, self.0[i as int]) || le(m, rhs.0[i as int]))
        && forall|x: N| le(self.0[i as int], x) && le(rhs.0[i as int], x) ==> #[trigger] le(m, x)
//@ fn SVec::into_map
    requires forall|i: int| 0 <= i < D ==> call_requires(f, (self.0[i],))
    ensures forall|i: int| 0 <= i < D ==> call_ensures(f, (self.0[i],), #[trigger] res.0[i])
//@ drop SVec<N,D> as Index<usize>; SVec<N,D> as IndexMut<usize>; SVec<N,D> as Intersects<Sphere<N,D>>; SVec<N,D> as Add
//@ text
pub proof fn vector_law_holds_for_integers()
    ensures <SVec<i32, 2> as Vector>::vlaw(), <SVec<i64, 3> as Vector>::vlaw(),
{
}
/// Clone gives the value back.
pub open spec fn clone_id<T: Clone>() -> bool {
    forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b
}
/// The operators do not overflow.
pub open spec fn sub_ok<N: Sub<Output = N>>(a: N, b: N) -> bool { a.sub_req(b) }
pub open spec fn add_ok<N: Add<Output = N>>(a: N, b: N) -> bool { a.add_req(b) }
pub open spec fn sq_ok<N: Mul<Output = N>>(a: N) -> bool { a.mul_req(a) }
pub open spec fn sq<N: Mul<Output = N>>(a: N) -> N { a.mul_spec(a) }
/// Sum of the squares of the first n coordinates, in the scalar's own arithmetic.
pub open spec fn sqm<N: Mul<Output = N> + Add<Output = N>>(v: Seq<N>, n: int) -> N
    decreases n,
{
    if n <= 1 { sq(v[0]) } else { sqm(v, n - 1).add_spec(sq(v[n - 1])) }
}
/// The scalar's operators are their mathematical operations where these are representable.
pub open spec fn arith<N: Clone + Add<Output = N> + Sub<Output = N> + Mul<Output = N>>() -> bool {
    clone_id::<N>() && N::obeys_add_spec() && N::obeys_mul_spec() && N::obeys_sub_spec()
}
/// No step of the sum of squares overflows.
pub open spec fn sq_req<N: Clone + Add<Output = N> + Sub<Output = N> + Mul<Output = N>>(v: Seq<N>) -> bool {
    &&& arith::<N>() && v.len() > 0
    &&& forall|k: int| 0 <= k < v.len() ==> sq_ok(#[trigger] v[k])
    &&& forall|k: int| 0 < k < v.len() ==> add_ok(#[trigger] sqm(v, k), sq(v[k]))
}
/// `it.map(f).reduce(g).unwrap()`
pub fn map_reduce<'a, N, F: FnMut(&'a N) -> N, G: FnMut(N, N) -> N>(it: core::slice::Iter<'a, N>, f: F, g: G, acc: Ghost<Seq<N>>) -> (r: N)
    requires
        it.remaining().len() > 0, acc@.len() == it.remaining().len(),
        forall|i: int| 0 <= i < acc@.len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
        forall|y: N| #[trigger] call_ensures(f, (it.remaining()[0],), y) ==> y == acc@[0],
        forall|i: int, y: N| 0 < i < acc@.len() && #[trigger] call_ensures(f, (it.remaining()[i],), y) ==> call_requires(g, (acc@[i - 1], y))
            && forall|z: N| #[trigger] call_ensures(g, (acc@[i - 1], y), z) ==> z == acc@[i],
    ensures r == acc@.last()
{
    let (mut it, mut f, mut g) = (it, f, g);
    let ghost all = it.remaining();
    let ghost n = 1int;
    let mut r = match it.next() {
        Some(x) => f(x),
        None => { proof { assert(false); } loop invariant false decreases 0int { } }
    };
    loop
        invariant
            1 <= n <= all.len(), it.remaining() == all.skip(n), acc@.len() == all.len(), r == acc@[n - 1],
            forall|i: int| 0 <= i < acc@.len() ==> call_requires(f, (#[trigger] all[i],)),
            forall|i: int, y: N| 0 < i < acc@.len() && #[trigger] call_ensures(f, (all[i],), y) ==> call_requires(g, (acc@[i - 1], y))
                && forall|z: N| #[trigger] call_ensures(g, (acc@[i - 1], y), z) ==> z == acc@[i],
        ensures n == all.len(),
        decreases acc@.len() - n,
    {
        match it.next() {
            Some(x) => { r = g(r, f(x)); proof { n = n + 1; } }
            None => { break; }
        }
    }
    r
}
impl<N: Sub + Clone, const D: usize> SubSpecImpl for SVec<N, D> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Self) -> bool {
        clone_id::<N>() && N::obeys_sub_spec() && forall|k: int| 0 <= k < D ==> (#[trigger] self.0@[k]).sub_req(rhs.0@[k])
    }
    uninterp spec fn sub_spec(self, rhs: Self) -> SVec<N::Output, D>;
}
//@ fn SVec<N,D> as Sub::sub
    ensures forall|k: int| 0 <= k < D ==> #[trigger] res.0@[k] == self.0@[k].sub_spec(rhs.0@[k])
//@ closure 0 | i: usize | -> (m: N::Output)
    requires i < D
    ensures m == self.0@[i as int].sub_spec(rhs.0@[i as int])
//@ fn SVec::sq_mag
    requires sq_req(self.0@)
    ensures res == sqm(self.0@, D as int)
//@ rewrite self.0.iter().map($f).reduce($g).unwrap() ==> map_reduce(self.0.iter(), $f, $g, Ghost(acc))
//@ start
        let ghost acc = Seq::new(D as nat, |k: int| sqm(self.0@, k + 1));
//@ closure 0 | v: &N | -> (m: N)
    requires v.mul_req(*v), arith::<N>()
    ensures m == v.mul_spec(*v)
//@ closure 1 | a: N, b: N | -> (m: N)
    requires a.add_req(b), arith::<N>()
    ensures m == a.add_spec(b)
//@ in SVec<N,D> as Intersects<SAABB<N,D>>
    open spec fn intersects_spec(&self, rhs: &SAABB<N, D>) -> bool { rhs.contains_spec(self) }
    open spec fn ilaw() -> bool { <SAABB<N, D> as Contains<SVec<N, D>>>::claw() }
//@ fn SVec<N,D> as Intersects<SAABB<N,D>>::intersects

//@ module contains from src/contains.rs
//@ in Contains
    spec fn contains_spec(&self, rhs: &T) -> bool;
    spec fn claw() -> bool;
//@ fn Contains::contains
    ensures Self::claw() ==> res == self.contains_spec(rhs)

//@ module intersects from src/intersects.rs
//@ drop f64_min; f64_max; ray_bounds_intersect; line_bounds_intersect
//@ in Intersects
    spec fn intersects_spec(&self, rhs: &T) -> bool;
    spec fn ilaw() -> bool;
//@ fn Intersects::intersects
    ensures Self::ilaw() ==> res == self.intersects_spec(rhs)

//@ module bounds from src/bounds.rs
//@ uses
use super::*;
use super::{contains::Contains, intersects::Intersects, vector::*, num_traits, noisy::N64};
use vstd::std_specs::iter::IteratorSpec;
use core::ops::Sub;
//@ drop AABB<V> as Eq; SAABB::sq_dist_to; SAABB<N,D> as Volume; SAABB<N,D> as Intersects<Ray<N,D>>; SAABB<N,D> as Intersects<Line<SVec<N,D>>>
//@ rewrite fn union_all(bounds: impl IntoIterator<Item = Self>) ==> fn union_all<It: Iterator<Item = Self>>(bounds: It)
//@ in Bounds
    spec fn blaw() -> bool;
    /// lhs lies inside rhs
    spec fn inside(lhs: &Self, rhs: &Self) -> bool;
    spec fn is_empty_bounds(b: &Self) -> bool;
    /// the bounds that contain b
    spec fn up(b: Self) -> ISet<Self>;
    /// the bounds that contain all of s
    spec fn up_all(s: Seq<Self>) -> ISet<Self>;
//@ fn Bounds::empty
    ensures Self::blaw() ==> Self::is_empty_bounds(&res)
//@ fn Bounds::union
    ensures
        Self::blaw() ==> Self::inside(lhs, &res) && Self::inside(rhs, &res),
        Self::blaw() ==> forall|x: Self| Self::inside(lhs, &x) && Self::inside(rhs, &x) ==> #[trigger] Self::inside(&res, &x),
        Self::blaw() ==> Self::up(res) == Self::up(*lhs).intersect(Self::up(*rhs)),
//@ fn Bounds::union_all
    requires bounds.obeys_prophetic_iter_laws(), bounds.decrease() is Some
    ensures
        bounds.will_return_none(),
        Self::blaw() ==> forall|i: int| 0 <= i < bounds.remaining().len() ==> Self::inside(&#[trigger] bounds.remaining()[i], &res),
        Self::blaw() ==> forall|x: Self| (forall|i: int| 0 <= i < bounds.remaining().len() ==> Self::inside(&#[trigger] bounds.remaining()[i], &x)) ==> #[trigger] Self::inside(&res, &x),
        Self::blaw() && bounds.remaining().len() == 0 ==> Self::is_empty_bounds(&res),
        Self::blaw() ==> Self::up(res) == Self::up_all(bounds.remaining()),
//@ in Bounded
    /// b is the bounds of self
    spec fn bounds_spec(&self, b: &B) -> bool;
    spec fn bdlaw() -> bool;
    /// the bounds are representable
    spec fn bounds_req(&self) -> bool;
//@ fn Bounded::bounds
    requires self.bounds_req()
    ensures Self::bdlaw() ==> self.bounds_spec(&res)
//@ text
pub open spec fn in_box<V: Vector>(b: AABB<V>, p: V) -> bool {
    forall|k: int| #![trigger b.min.lek(&p, k)] #![trigger p.lek(&b.max, k)] 0 <= k < V::dim() ==> b.min.lek(&p, k) && p.lek(&b.max, k)
}
pub open spec fn box_in_box<V: Vector>(outer: AABB<V>, inner: AABB<V>) -> bool {
    forall|k: int| #![trigger outer.min.lek(&inner.min, k)] #![trigger inner.max.lek(&outer.max, k)] 0 <= k < V::dim() ==> outer.min.lek(&inner.min, k) && inner.max.lek(&outer.max, k)
}
pub open spec fn boxes_meet<V: Vector>(a: AABB<V>, b: AABB<V>) -> bool {
    forall|k: int| #![trigger a.min.lek(&b.max, k)] #![trigger b.min.lek(&a.max, k)] 0 <= k < V::dim() ==> a.min.lek(&b.max, k) && b.min.lek(&a.max, k)
}
/// min <= max in every dimension
pub open spec fn proper<V: Vector>(a: AABB<V>) -> bool {
    forall|k: int| 0 <= k < V::dim() ==> #[trigger] a.min.lek(&a.max, k)
}
pub open spec fn box_same<V: Vector>(a: AABB<V>, b: AABB<V>) -> bool {
    same(a.min, b.min) && same(a.max, b.max)
}
//@ in AABB<V> as Contains<V>
    open spec fn contains_spec(&self, point: &V) -> bool { in_box(*self, *point) }
    open spec fn claw() -> bool { V::vlaw() }
//@ fn AABB<V> as Contains<V>::contains
//@ in AABB<V> as Contains<AABB<V>>
    open spec fn contains_spec(&self, bounds: &AABB<V>) -> bool { box_in_box(*self, *bounds) }
    open spec fn claw() -> bool { V::vlaw() }
//@ fn AABB<V> as Contains<AABB<V>>::contains
//@ in AABB<V> as Intersects<V>
    open spec fn intersects_spec(&self, point: &V) -> bool { in_box(*self, *point) }
    open spec fn ilaw() -> bool { V::vlaw() }
//@ fn AABB<V> as Intersects<V>::intersects
//@ in AABB<V> as Intersects<AABB<V>>
    open spec fn intersects_spec(&self, bounds: &AABB<V>) -> bool { boxes_meet(*self, *bounds) }
    open spec fn ilaw() -> bool { V::vlaw() }
//@ fn AABB<V> as Intersects<AABB<V>>::intersects
//@ in AABB<V> as Bounds
    open spec fn blaw() -> bool { V::vlaw() }
    open spec fn inside(lhs: &Self, rhs: &Self) -> bool { box_in_box(*rhs, *lhs) }
    open spec fn is_empty_bounds(b: &Self) -> bool { forall|x: Self| #[trigger] box_in_box(x, *b) }
    open spec fn up(b: Self) -> ISet<Self> { ISet::new(|x: Self| box_in_box(x, b)) }
    open spec fn up_all(s: Seq<Self>) -> ISet<Self> { ISet::new(|x: Self| forall|i: int| 0 <= i < s.len() ==> box_in_box(x, #[trigger] s[i])) }
//@ fn AABB<V> as Bounds::empty
//@ fn AABB<V> as Bounds::union
//@ start
        proof { if V::vlaw() { box_laws::<V>(); } }
//@ tailbind u
        proof { if V::vlaw() {
            assert(Self::inside(lhs, &u) && Self::inside(rhs, &u));
            assert(forall|x: Self| Self::inside(lhs, &x) && Self::inside(rhs, &x) ==> #[trigger] Self::inside(&u, &x));
            assert(Self::up(u) =~= Self::up(*lhs).intersect(Self::up(*rhs)));
        } }
//@ fn AABB<V> as Bounds::union_all
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
//@ start
        let ghost all = bounds.remaining();
        proof { if V::vlaw() { box_laws::<V>(); } }
//@ tail
        proof { if V::vlaw() {
            box_laws::<V>();
            assert forall|x: Self| Self::up(res).contains(x) implies Self::up_all(all).contains(x) by {
                assert forall|i: int| 0 <= i < all.len() implies box_in_box(x, #[trigger] all[i]) by { assert(box_in_box(x, res) && Self::inside(&all[i], &res)); }
            }
            assert forall|x: Self| Self::up_all(all).contains(x) implies Self::up(res).contains(x) by {
                assert forall|i: int| 0 <= i < all.len() implies Self::inside(&#[trigger] all[i], &x) by { assert(box_in_box(x, all[i])); }
                assert(Self::inside(&res, &x));
            }
            assert(Self::up(res) =~= Self::up_all(all));
        } }
//@ loopend 0
            proof { if V::vlaw() { box_laws::<V>(); } }
//@ loop 0 iter it
            invariant
                it.seq() == all,
                it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
                Self::blaw() ==> forall|i: int| 0 <= i < it.index() ==> Self::inside(&#[trigger] all[i], &res),
                Self::blaw() ==> forall|x: Self| (forall|i: int| 0 <= i < it.index() ==> Self::inside(&#[trigger] all[i], &x)) ==> #[trigger] Self::inside(&res, &x),
                Self::blaw() && it.index() == 0 ==> Self::is_empty_bounds(&res),
//@ in V as Bounded<AABB<V>>
    open spec fn bounds_spec(&self, b: &AABB<V>) -> bool { same(*self, b.min) && same(*self, b.max) }
    open spec fn bdlaw() -> bool { V::vlaw() && vclone::<V>() }
    open spec fn bounds_req(&self) -> bool { true }
//@ fn V as Bounded<AABB<V>>::bounds
//@ in SAABB<N,D> as Bounded<SAABB<N,D>>
    open spec fn bounds_spec(&self, b: &SAABB<N, D>) -> bool { sbox_same(*self, *b) }
    open spec fn bdlaw() -> bool { sbox_clone::<N, D>() }
    open spec fn bounds_req(&self) -> bool { true }
//@ fn SAABB<N,D> as Bounded<SAABB<N,D>>::bounds
//@ text
/// Order laws lifted to boxes.
pub proof fn box_laws<V: Vector>()
    requires V::vlaw(),
    ensures
        forall|a: AABB<V>, b: AABB<V>, c: AABB<V>| #[trigger] box_in_box(a, b) && #[trigger] box_in_box(b, c) ==> box_in_box(a, c),
        forall|a: AABB<V>| #[trigger] box_in_box(a, a),
{
    V::lek_laws();
    assert forall|a: AABB<V>, b: AABB<V>, c: AABB<V>| #[trigger] box_in_box(a, b) && #[trigger] box_in_box(b, c) implies box_in_box(a, c) by {
        assert forall|k: int| 0 <= k < V::dim() implies a.min.lek(&c.min, k) && c.max.lek(&a.max, k) by {
            assert(a.min.lek(&b.min, k) && b.min.lek(&c.min, k));
            assert(c.max.lek(&b.max, k) && b.max.lek(&a.max, k));
        }
    }
}
pub open spec fn sbox_same<N: Ord, const D: usize>(a: SAABB<N, D>, b: SAABB<N, D>) -> bool {
    forall|k: int| 0 <= k < D ==> le(#[trigger] a.min.0[k], b.min.0[k]) && le(b.min.0[k], a.min.0[k]) && le(a.max.0[k], b.max.0[k]) && le(b.max.0[k], a.max.0[k])
}
/// Cloning a box keeps every coordinate.
pub open spec fn sbox_clone<N: Ord + Clone, const D: usize>() -> bool {
    forall|a: SAABB<N, D>, b: SAABB<N, D>| #[trigger] call_ensures(<SAABB<N, D> as Clone>::clone, (&a,), b) ==> sbox_same(a, b)
}
/// The box between two opposite corners.
pub open spec fn corner_box<V: Vector>(b: AABB<V>, p: V, q: V) -> bool {
    in_box(b, p) && in_box(b, q) && forall|x: AABB<V>| in_box(x, p) && in_box(x, q) ==> #[trigger] box_in_box(x, b)
}

//@ module geom_line from src/geom/line.rs
//@ uses
use super::*;
use super::{bounds::*, vector::*, contains::Contains, intersects::Intersects};
use core::ops::Sub;
//@ drop Line::delta; Line::sq_len; Line::len
//@ drop Line<SVec<N,D>> as Intersects<SAABB<N,D>>
//@ in Line<V> as Bounded<AABB<V>>
    open spec fn bounds_spec(&self, b: &AABB<V>) -> bool { corner_box(*b, self.0, self.1) }
    open spec fn bdlaw() -> bool { V::vlaw() }
    open spec fn bounds_req(&self) -> bool { true }
//@ fn Line<V> as Bounded<AABB<V>>::bounds
//@ start
        proof { if V::vlaw() { V::lek_laws(); } }

//@ module geom_sphere from src/geom/sphere.rs
//@ uses
use super::*;
use super::{bounds::*, vector::*, contains::Contains, intersects::Intersects, num_traits};
use vstd::std_specs::ops::{AddSpec, SubSpec};
use core::ops::{Add, Sub};
//@ drop Sphere<N,D> as Intersects<SVec<N,D>>
//@ in Sphere<N,D> as Bounded<SAABB<N,D>>
    open spec fn bounds_spec(&self, b: &SAABB<N, D>) -> bool {
        forall|k: int| #![trigger b.min.0@[k]] #![trigger b.max.0@[k]] 0 <= k < D ==> b.min.0@[k] == self.center.0@[k].sub_spec(self.radius) && b.max.0@[k] == self.center.0@[k].add_spec(self.radius)
    }
    open spec fn bdlaw() -> bool { N::obeys_sub_spec() && N::obeys_add_spec() }
    open spec fn bounds_req(&self) -> bool {
        clone_id::<N>() && clone_id::<SVec<N, D>>()
        && forall|k: int| #![trigger self.center.0@[k]] 0 <= k < D ==> self.center.0@[k].sub_req(self.radius) && self.center.0@[k].add_req(self.radius)
    }
//@ fn Sphere<N,D> as Bounded<SAABB<N,D>>::bounds
//@ closure 0 | coord: N | -> (m: N)
    requires clone_id::<N>(), coord.sub_req(self.radius),
    ensures N::obeys_sub_spec() ==> m == coord.sub_spec(self.radius)
//@ closure 1 | coord: N | -> (m: N)
    requires clone_id::<N>(), coord.add_req(self.radius),
    ensures N::obeys_add_spec() ==> m == coord.add_spec(self.radius)
//@ text
pub open spec fn isum(p: spec_fn(int) -> int, n: nat) -> int
    decreases n,
{
    if n == 0 { 0 } else { isum(p, (n - 1) as nat) + p(n - 1) * p(n - 1) }
}
proof fn isum_ge(p: spec_fn(int) -> int, n: nat, k: int)
    requires 0 <= k < n,
    ensures p(k) * p(k) <= isum(p, n), isum(p, n) >= 0,
    decreases n,
{
    assert(p(n - 1) * p(n - 1) >= 0) by (nonlinear_arith);
    if k < n - 1 {
        isum_ge(p, (n - 1) as nat, k);
    } else if n > 1 {
        isum_ge(p, (n - 1) as nat, 0);
    } else {
        assert(isum(p, 0) == 0);
    }
}
/// Integer points of a sphere lie in its bounds (64-bit coordinates, no overflow).
pub proof fn sphere_bounds_contain_sphere<const D: usize>(s: Sphere<i64, D>, b: SAABB<i64, D>, p: [i64; D])
    requires
        s.bounds_spec(&b),
        s.bounds_req(),
        s.radius >= 0,
        isum(|k: int| p@[k] as int - s.center.0@[k], D as nat) <= s.radius * s.radius,
    ensures
        forall|k: int| 0 <= k < D ==> b.min.0@[k] <= #[trigger] p@[k] <= b.max.0@[k],
{
    let f = |k: int| p@[k] as int - s.center.0@[k];
    assert forall|k: int| 0 <= k < D implies b.min.0@[k] <= #[trigger] p@[k] <= b.max.0@[k] by {
        isum_ge(f, D as nat, k);
        let (d, r) = (f(k), s.radius as int);
        assert(-r <= d <= r) by (nonlinear_arith) requires d * d <= r * r, r >= 0;
        assert(SubSpec::sub_req(s.center.0@[k], s.radius));
        assert(b.min.0@[k] == SubSpec::sub_spec(s.center.0@[k], s.radius));
        assert(b.max.0@[k] == AddSpec::add_spec(s.center.0@[k], s.radius));
    }
}

//@ module filter from src/filter.rs
//@ uses
use super::*;
use super::{bounds::*, vector::*, contains::Contains, intersects::Intersects};
//@ in SpatialFilter
    spec fn key_ok(&self, key: &Key) -> bool;
    spec fn bounds_ok(&self, bounds: &B) -> bool;
    spec fn flaw(&self) -> bool;
    /// C17: the key may be tested
    spec fn may_test(&self, key: &Key) -> bool;
//@ fn SpatialFilter::test_bounds
    ensures self.flaw() ==> res == self.bounds_ok(bounds)
//@ fn SpatialFilter::test_key
//%permit     requires self.may_test(key)
    ensures self.flaw() ==> res == self.key_ok(key)
//@ fn IntersectsFilter::new
    ensures res.space == space
//@ fn ContainsFilter::new
    ensures res.space == space
//@ in IntersectsFilter<S> as SpatialFilter<B,Key>
    open spec fn key_ok(&self, key: &Key) -> bool { self.space.intersects_spec(key) }
    open spec fn bounds_ok(&self, bounds: &B) -> bool { self.space.intersects_spec(bounds) }
    open spec fn flaw(&self) -> bool { <S as Intersects<B>>::ilaw() && <S as Intersects<Key>>::ilaw() }
    open spec fn may_test(&self, key: &Key) -> bool { true }
//@ fn BoundedIntersectsFilter::new_bounded
    requires space.bounds_req()
    ensures res.space == space, S::bdlaw() ==> space.bounds_spec(&res.bounds)
//@ in BoundedIntersectsFilter<B,S> as SpatialFilter<B,Key>
    open spec fn key_ok(&self, key: &Key) -> bool { self.space.intersects_spec(key) }
    open spec fn bounds_ok(&self, bounds: &B) -> bool { self.bounds.intersects_spec(bounds) }
    open spec fn flaw(&self) -> bool { B::ilaw() && S::ilaw() }
    open spec fn may_test(&self, key: &Key) -> bool { true }
//@ in ContainsFilter<S> as SpatialFilter<B,Key>
    open spec fn key_ok(&self, key: &Key) -> bool { self.space.contains_spec(key) }
    open spec fn bounds_ok(&self, bounds: &B) -> bool { self.space.intersects_spec(bounds) }
    open spec fn flaw(&self) -> bool { <S as Intersects<B>>::ilaw() && S::claw() }
    open spec fn may_test(&self, key: &Key) -> bool { true }
//@ fn BoundedContainsFilter::new_bounded
    requires space.bounds_req()
    ensures res.space == space, S::bdlaw() ==> space.bounds_spec(&res.bounds)
//@ in BoundedContainsFilter<B,S> as SpatialFilter<B,Key>
    open spec fn key_ok(&self, key: &Key) -> bool { self.space.contains_spec(key) }
    open spec fn bounds_ok(&self, bounds: &B) -> bool { self.bounds.intersects_spec(bounds) }
    open spec fn flaw(&self) -> bool { B::ilaw() && S::claw() }
    open spec fn may_test(&self, key: &Key) -> bool { true }
//@ in NoFilter as SpatialFilter<B,Key>
    open spec fn key_ok(&self, key: &Key) -> bool { true }
    open spec fn bounds_ok(&self, bounds: &B) -> bool { true }
    open spec fn flaw(&self) -> bool { true }
    open spec fn may_test(&self, key: &Key) -> bool { true }
//@ in JoinFilter
    spec fn pair_ok(&self, left: &KeyL, right: &KeyR) -> bool;
    spec fn bounds_pair_ok(&self, left: &BL, right: &BR) -> bool;
    spec fn jlaw(&self) -> bool;
    /// C17: the pair may be tested
    spec fn may_pair(&self, left: &KeyL, right: &KeyR) -> bool;
//@ fn JoinFilter::test_bounds
    ensures self.jlaw() ==> res == self.bounds_pair_ok(left, right)
//@ fn JoinFilter::test_key
//%permit     requires self.may_pair(left, right)
    ensures self.jlaw() ==> res == self.pair_ok(left, right)
//@ fn JoiningFilter::new
    requires key.bounds_req()
    ensures res.key == key, res.filter == filter, Key::bdlaw() ==> key.bounds_spec(&res.bounds)
//@ in JoiningFilter<'a,BL,Key0,Filter> as SpatialFilter<BR,Key1>
    open spec fn key_ok(&self, key: &Key1) -> bool { self.filter.pair_ok(self.key, key) }
    open spec fn bounds_ok(&self, bounds: &BR) -> bool { self.filter.bounds_pair_ok(&self.bounds, bounds) }
    open spec fn flaw(&self) -> bool { self.filter.jlaw() }
    open spec fn may_test(&self, key: &Key1) -> bool { self.filter.may_pair(self.key, key) }
//@ fn IntersectsFilter<S> as SpatialFilter<B,Key>::test_bounds
//@ fn IntersectsFilter<S> as SpatialFilter<B,Key>::test_key
//@ fn BoundedIntersectsFilter<B,S> as SpatialFilter<B,Key>::test_bounds
//@ fn BoundedIntersectsFilter<B,S> as SpatialFilter<B,Key>::test_key
//@ fn ContainsFilter<S> as SpatialFilter<B,Key>::test_bounds
//@ fn ContainsFilter<S> as SpatialFilter<B,Key>::test_key
//@ fn BoundedContainsFilter<B,S> as SpatialFilter<B,Key>::test_bounds
//@ fn BoundedContainsFilter<B,S> as SpatialFilter<B,Key>::test_key
//@ fn NoFilter as SpatialFilter<B,Key>::test_bounds
//@ fn NoFilter as SpatialFilter<B,Key>::test_key
//@ fn JoiningFilter<'a,BL,Key0,Filter> as SpatialFilter<BR,Key1>::test_bounds
//@ fn JoiningFilter<'a,BL,Key0,Filter> as SpatialFilter<BR,Key1>::test_key
//@ text
/// key's bounds lie inside c
pub open spec fn covered<V: Vector, K: Bounded<AABB<V>>>(key: K, c: AABB<V>) -> bool {
    exists|b: AABB<V>| #[trigger] key.bounds_spec(&b) && box_in_box(c, b)
}
pub proof fn intersects_filter_keeps_points<V: Vector + Clone>(f: IntersectsFilter<AABB<V>>, key: V, c: AABB<V>)
    requires V::vlaw(), SpatialFilter::<AABB<V>, V>::key_ok(&f, &key), covered(key, c),
    ensures SpatialFilter::<AABB<V>, V>::bounds_ok(&f, &c),
{
    V::lek_laws();
    let b = choose|b: AABB<V>| #[trigger] key.bounds_spec(&b) && box_in_box(c, b);
    point_box(f.space, key, b, c);
}
proof fn point_box<V: Vector>(s: AABB<V>, key: V, b: AABB<V>, c: AABB<V>)
    requires V::vlaw(), in_box(s, key), same(key, b.min), same(key, b.max), box_in_box(c, b),
    ensures boxes_meet(s, c), in_box(c, key),
{
    V::lek_laws();
    assert forall|k: int| #![trigger s.min.lek(&c.max, k)] #![trigger c.min.lek(&s.max, k)] #![trigger c.min.lek(&key, k)] #![trigger key.lek(&c.max, k)]
        0 <= k < V::dim() implies s.min.lek(&c.max, k) && c.min.lek(&s.max, k) && c.min.lek(&key, k) && key.lek(&c.max, k) by {
        assert(s.min.lek(&key, k) && key.lek(&s.max, k));
        assert(key.lek(&b.max, k) && b.min.lek(&key, k));
        assert(b.max.lek(&c.max, k) && c.min.lek(&b.min, k));
        assert(key.lek(&c.max, k));
        assert(c.min.lek(&key, k));
    }
}
proof fn box_box<V: Vector>(s: AABB<V>, key: AABB<V>, b: AABB<V>, c: AABB<V>)
    requires V::vlaw(), boxes_meet(s, key), box_same(key, b), box_in_box(c, b),
    ensures boxes_meet(s, c),
{
    V::lek_laws();
    assert forall|k: int| 0 <= k < V::dim() implies s.min.lek(&c.max, k) && c.min.lek(&s.max, k) by {
        assert(s.min.lek(&key.max, k) && key.min.lek(&s.max, k));
        assert(key.max.lek(&b.max, k) && b.min.lek(&key.min, k));
        assert(b.max.lek(&c.max, k) && c.min.lek(&b.min, k));
        assert(s.min.lek(&b.max, k) && b.min.lek(&s.max, k));
    }
}
proof fn contained_meets<V: Vector>(s: AABB<V>, key: AABB<V>)
    requires V::vlaw(), box_in_box(s, key), proper(key),
    ensures boxes_meet(s, key),
{
    V::lek_laws();
    assert forall|k: int| 0 <= k < V::dim() implies s.min.lek(&key.max, k) && key.min.lek(&s.max, k) by {
        assert(s.min.lek(&key.min, k) && key.max.lek(&s.max, k));
        assert(key.min.lek(&key.max, k));
    }
}
proof fn same_meets<V: Vector>(s: AABB<V>, t: AABB<V>, c: AABB<V>)
    requires V::vlaw(), box_same(s, t), boxes_meet(s, c),
    ensures boxes_meet(t, c),
{
    V::lek_laws();
    assert forall|k: int| 0 <= k < V::dim() implies t.min.lek(&c.max, k) && c.min.lek(&t.max, k) by {
        assert(s.min.lek(&c.max, k) && c.min.lek(&s.max, k));
        assert(t.min.lek(&s.min, k) && s.max.lek(&t.max, k));
    }
}
pub proof fn sbox_same_is_box_same<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(a: SAABB<N, D>, b: SAABB<N, D>)
    requires sbox_same(a, b),
    ensures box_same(a, b),
{
    assert forall|k: int| 0 <= k < D implies a.min.lek(&b.min, k) && b.min.lek(&a.min, k) && a.max.lek(&b.max, k) && b.max.lek(&a.max, k) by {
        assert(le(a.min.0[k], b.min.0[k]));
    }
}
pub proof fn intersects_filter_keeps_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: IntersectsFilter<SAABB<N, D>>, key: SAABB<N, D>, b: SAABB<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(),
        SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, &key),
        Bounded::<SAABB<N, D>>::bounds_spec(&key, &b),
        box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &c),
{
    sbox_same_is_box_same(key, b);
    box_box(f.space, key, b, c);
}
pub proof fn contains_filter_keeps_points<V: Vector + Clone>(f: ContainsFilter<AABB<V>>, key: V, c: AABB<V>)
    requires V::vlaw(), SpatialFilter::<AABB<V>, V>::key_ok(&f, &key), covered(key, c),
    ensures SpatialFilter::<AABB<V>, V>::bounds_ok(&f, &c),
{
    let b = choose|b: AABB<V>| #[trigger] key.bounds_spec(&b) && box_in_box(c, b);
    point_box(f.space, key, b, c);
}
pub proof fn contains_filter_keeps_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: ContainsFilter<SAABB<N, D>>, key: SAABB<N, D>, b: SAABB<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(), proper(key),
        SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, &key),
        Bounded::<SAABB<N, D>>::bounds_spec(&key, &b),
        box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &c),
{
    sbox_same_is_box_same(key, b);
    contained_meets(f.space, key);
    box_box(f.space, key, b, c);
}
pub proof fn bounded_intersects_filter_keeps_points<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: BoundedIntersectsFilter<SAABB<N, D>, SAABB<N, D>>, key: SVec<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(),
        sbox_same(f.space, f.bounds),
        SpatialFilter::<SAABB<N, D>, SVec<N, D>>::key_ok(&f, &key),
        exists|b: SAABB<N, D>| #![auto] same(key, b.min) && same(key, b.max) && box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SVec<N, D>>::bounds_ok(&f, &c),
{
    let b = choose|b: SAABB<N, D>| #![auto] same(key, b.min) && same(key, b.max) && box_in_box(c, b);
    sbox_same_is_box_same(f.space, f.bounds);
    point_box(f.space, key, b, c);
    same_meets(f.space, f.bounds, c);
}
pub proof fn bounded_intersects_filter_keeps_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: BoundedIntersectsFilter<SAABB<N, D>, SAABB<N, D>>, key: SAABB<N, D>, b: SAABB<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(),
        sbox_same(f.space, f.bounds),
        SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, &key),
        sbox_same(key, b),
        box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &c),
{
    sbox_same_is_box_same(f.space, f.bounds);
    sbox_same_is_box_same(key, b);
    box_box(f.space, key, b, c);
    same_meets(f.space, f.bounds, c);
}
pub proof fn bounded_contains_filter_keeps_points<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: BoundedContainsFilter<SAABB<N, D>, SAABB<N, D>>, key: SVec<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(),
        sbox_same(f.space, f.bounds),
        SpatialFilter::<SAABB<N, D>, SVec<N, D>>::key_ok(&f, &key),
        exists|b: SAABB<N, D>| #![auto] same(key, b.min) && same(key, b.max) && box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SVec<N, D>>::bounds_ok(&f, &c),
{
    let b = choose|b: SAABB<N, D>| #![auto] same(key, b.min) && same(key, b.max) && box_in_box(c, b);
    sbox_same_is_box_same(f.space, f.bounds);
    point_box(f.space, key, b, c);
    same_meets(f.space, f.bounds, c);
}
pub proof fn bounded_contains_filter_keeps_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: BoundedContainsFilter<SAABB<N, D>, SAABB<N, D>>, key: SAABB<N, D>, b: SAABB<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(), proper(key),
        sbox_same(f.space, f.bounds),
        SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, &key),
        sbox_same(key, b),
        box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &c),
{
    sbox_same_is_box_same(f.space, f.bounds);
    sbox_same_is_box_same(key, b);
    contained_meets(f.space, key);
    box_box(f.space, key, b, c);
    same_meets(f.space, f.bounds, c);
}
pub proof fn point_intersects_filter_keeps_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(
    f: IntersectsFilter<SVec<N, D>>, key: SAABB<N, D>, b: SAABB<N, D>, c: SAABB<N, D>)
    requires
        <SVec<N, D> as Vector>::vlaw(),
        SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, &key),
        sbox_same(key, b),
        box_in_box(c, b),
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &c),
{
    SVec::<N, D>::lek_laws();
    sbox_same_is_box_same(key, b);
    assert forall|k: int| 0 <= k < D implies c.min.lek(&f.space, k) && f.space.lek(&c.max, k) by {
        assert(key.min.lek(&f.space, k) && f.space.lek(&key.max, k));
        assert(key.max.lek(&b.max, k) && b.min.lek(&key.min, k));
        assert(b.max.lek(&c.max, k) && c.min.lek(&b.min, k));
        assert(b.min.lek(&f.space, k) && f.space.lek(&b.max, k));
    }
}

//@ module ranking from src/ranking.rs
//@ uses
use super::*;
use super::{bounds::*, vector::*};
use core::marker::PhantomData;
use core::ops::{Add, Mul, Sub};
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
//@ in Ranking
    /// the lower bound of bounds, and the bounds it is defined for
    spec fn bound(&self, bounds: &B) -> Self::Metric;
    spec fn bound_req(&self, bounds: &B) -> bool;
    /// the rank of a key, and the keys it is defined for
    spec fn rank(&self, key: &Key) -> Self::Metric;
    spec fn rank_req(&self, key: &Key) -> bool;
//@ fn Ranking::bounds_min
    requires self.bound_req(bounds)
    ensures res == self.bound(bounds)
//@ fn Ranking::rank_key
    requires self.rank_req(key)
    ensures res == self.rank(key)
//@ in PointDistance
    /// the squared distance, and the points it is defined for
    spec fn dist(&self, point: &V) -> N;
    spec fn dist_req(&self, point: &V) -> bool;
//@ fn PointDistance::dist_sq
    requires self.dist_req(point)
    ensures res == self.dist(point)
//@ text
pub open spec fn diff<N: Sub<Output = N>, const D: usize>(a: SVec<N, D>, b: SVec<N, D>) -> Seq<N> { Seq::new(D as nat, |k: int| a.0@[k].sub_spec(b.0@[k])) }
/// c is the point of the box nearest to p
pub open spec fn nearest<V: Vector>(c: V, p: V, b: AABB<V>) -> bool {
    forall|k: int| #![trigger c.lek(&b.max, k)] #![trigger b.min.lek(&c, k)] #![trigger c.lek(&p, k)] #![trigger p.lek(&c, k)] 0 <= k < V::dim() ==>
        b.min.lek(&c, k) && c.lek(&b.max, k) && (c.lek(&p, k) || c.lek(&b.min, k)) && (p.lek(&c, k) || b.max.lek(&c, k))
}
/// Vectors with equal coordinates are equal.
pub open spec fn ext<V: Vector>() -> bool { forall|a: V, b: V| #[trigger] same(a, b) ==> a == b }
pub proof fn lemma_nearest<V: Vector>(p: V, b: AABB<V>, c: V, d: V)
    requires V::vlaw(), ext::<V>(), proper(b), nearest(c, p, b), nearest(d, p, b)
    ensures c == d
{
    V::lek_laws();
    assert(same(c, d)) by {
        assert forall|k: int| #![trigger c.lek(&d, k)] #![trigger d.lek(&c, k)] 0 <= k < V::dim() implies c.lek(&d, k) && d.lek(&c, k) by {
            assert(b.min.lek(&c, k) && b.min.lek(&d, k));
        }
    }
}
//@ in SVec<N,D> as PointDistance<SVec<N,D>,N>
    open spec fn dist(&self, point: &SVec<N, D>) -> N { sqm(diff(*self, *point), D as int) }
    open spec fn dist_req(&self, point: &SVec<N, D>) -> bool {
        clone_id::<SVec<N, D>>() && SubSpec::sub_req(*self, *point) && sq_req(diff(*self, *point))
    }
//@ fn SVec<N,D> as PointDistance<SVec<N,D>,N>::dist_sq
//@ start
        let ghost q = *point;
        proof { assert forall|r: SVec<N, D>| (forall|k: int| 0 <= k < D ==> #[trigger] r.0@[k] == self.0@[k].sub_spec(q.0@[k])) implies #[trigger] r.0@ == diff(*self, q) by { assert(r.0@ =~= diff(*self, q)); } }
//@ in AABB<V> as PointDistance<V,N>
    open spec fn dist(&self, point: &V) -> N { (choose|c: V| nearest(c, *point, *self)).dist(point) }
    open spec fn dist_req(&self, point: &V) -> bool {
        V::vlaw() && ext::<V>() && proper(*self) && forall|c: V| #[trigger] nearest(c, *point, *self) ==> c.dist_req(point)
    }
//@ fn AABB<V> as PointDistance<V,N>::dist_sq
//@ after let closest_point = $e;
        proof {
            V::lek_laws();
            let (c, p, b) = (closest_point, *point, *self);
            assert forall|k: int| #![trigger c.lek(&b.max, k)] #![trigger b.min.lek(&c, k)] #![trigger c.lek(&p, k)] #![trigger p.lek(&c, k)] 0 <= k < V::dim() implies
                b.min.lek(&c, k) && c.lek(&b.max, k) && (c.lek(&p, k) || c.lek(&b.min, k)) && (p.lek(&c, k) || b.max.lek(&c, k)) by {
                assert(b.min.lek(&b.max, k) && c.lek(&b.max, k));
                assert(b.min.lek(&c, k));
                assert(c.lek(&c, k) && p.lek(&p, k) && b.min.lek(&b.min, k));
            }
            assert(nearest(c, p, b));
            lemma_nearest(*point, *self, closest_point, choose|c: V| nearest(c, *point, *self));
        }
//@ fn EuclideanDistanceRanking::new
    ensures res.point == point
//@ in EuclideanDistanceRanking<V,M> as Ranking<B,Key>
    open spec fn bound(&self, bounds: &B) -> M { bounds.dist(&self.point) }
    open spec fn bound_req(&self, bounds: &B) -> bool { bounds.dist_req(&self.point) }
    open spec fn rank(&self, key: &Key) -> M { key.dist(&self.point) }
    open spec fn rank_req(&self, key: &Key) -> bool { key.dist_req(&self.point) }
//@ fn EuclideanDistanceRanking<V,M> as Ranking<B,Key>::bounds_min
//@ fn EuclideanDistanceRanking<V,M> as Ranking<B,Key>::rank_key
//@ text
/// The distance of i64 vectors, as mathematics has it.
pub open spec fn sqi(v: Seq<i64>, n: int) -> int
    decreases n,
{
    if n <= 1 { v[0] * v[0] } else { sqi(v, n - 1) + v[n - 1] * v[n - 1] }
}
proof fn lemma_abs(x: int, y: int)
    requires (0 <= x <= y) || (y <= x <= 0)
    ensures 0 <= x * x <= y * y
{
    assert(0 <= x * x <= y * y) by (nonlinear_arith) requires (0 <= x <= y) || (y <= x <= 0);
}
proof fn lemma_sqm(v: Seq<i64>, n: int)
    requires sq_req(v), 1 <= n <= v.len()
    ensures sqm(v, n) == sqi(v, n), 0 <= sqi(v, n) <= i64::MAX
    decreases n
{
    assert(sq_ok(v[n - 1]));
    assert(v[n - 1] * v[n - 1] >= 0) by (nonlinear_arith);
    if n > 1 {
        lemma_sqm(v, n - 1);
        assert(add_ok(sqm(v, n - 1), sq(v[n - 1])));
    }
}
/// Coordinates between those of p and those of another point are no farther from p.
pub proof fn lemma_closer<const D: usize>(c: SVec<i64, D>, key: SVec<i64, D>, p: SVec<i64, D>)
    requires
        key.dist_req(&p),
        forall|k: int| 0 <= k < D ==> (p.0@[k] <= #[trigger] c.0@[k] <= key.0@[k]) || (key.0@[k] <= c.0@[k] <= p.0@[k]),
    ensures c.dist_req(&p), c.dist(&p) <= key.dist(&p)
{
    let (v, w) = (diff(c, p), diff(key, p));
    assert forall|k: int| 0 <= k < D implies sub_ok(#[trigger] c.0@[k], p.0@[k]) by {
        assert(sub_ok(key.0@[k], p.0@[k]));
    }
    assert forall|k: int| 0 <= k < D implies ((0 <= #[trigger] v[k] <= w[k]) || (w[k] <= v[k] <= 0)) && v[k] == c.0@[k] - p.0@[k] && w[k] == key.0@[k] - p.0@[k] by {
        assert(sub_ok(key.0@[k], p.0@[k]));
        assert(sub_ok(c.0@[k], p.0@[k]));
    }
    assert forall|k: int| 0 <= k < D implies sq_ok(#[trigger] v[k]) && 0 <= v[k] * v[k] <= w[k] * w[k] by {
        assert(sq_ok(w[k]));
        lemma_abs(v[k] as int, w[k] as int);
    }
    lemma_sums(v, w, D as int);
    lemma_sqm(v, D as int);
    lemma_sqm(w, D as int);
}
proof fn lemma_sums(v: Seq<i64>, w: Seq<i64>, n: int)
    requires
        sq_req(w), v.len() == w.len(), arith::<i64>(), 1 <= n <= v.len(),
        forall|k: int| 0 <= k < v.len() ==> sq_ok(#[trigger] v[k]) && 0 <= v[k] * v[k] <= w[k] * w[k],
    ensures
        sqi(v, n) <= sqi(w, n), sqm(v, n) == sqi(v, n), 0 <= sqi(v, n),
        forall|k: int| 0 < k < n ==> add_ok(#[trigger] sqm(v, k), sq(v[k])),
    decreases n
{
    assert(sq_ok(v[n - 1]));
    lemma_sqm(w, n);
    if n > 1 {
        lemma_sums(v, w, n - 1);
        lemma_sqm(w, n - 1);
        assert(add_ok(sqm(w, n - 1), sq(w[n - 1])));
        assert(sq_ok(w[n - 1]));
    }
}
proof fn lemma_ext<const D: usize>()
    ensures ext::<SVec<i64, D>>(), <SVec<i64, D> as Vector>::vlaw()
{
    assert forall|a: SVec<i64, D>, b: SVec<i64, D>| #[trigger] same(a, b) implies a == b by {
        assert forall|k: int| 0 <= k < D implies #[trigger] a.0@[k] == b.0@[k] by { assert(a.lek(&b, k) && b.lek(&a, k)); }
        assert(a.0@ =~= b.0@);
        assert(a.0 =~= b.0);
    }
}
/// A box is no farther from a point than anything in it.
pub proof fn theorem_box_no_farther_than_its_points<const D: usize>(b: SAABB<i64, D>, key: SVec<i64, D>, p: SVec<i64, D>)
    requires in_box(b, key), key.dist_req(&p)
    ensures b.dist_req(&p), b.dist(&p) <= key.dist(&p)
{
    lemma_ext::<D>();
    assert forall|k: int| 0 <= k < D implies #[trigger] b.min.lek(&b.max, k) by { assert(b.min.lek(&key, k) && key.lek(&b.max, k)); }
    assert forall|c: SVec<i64, D>| #[trigger] nearest(c, p, b) implies c.dist_req(&p) && c.dist(&p) <= key.dist(&p) by {
        assert forall|k: int| 0 <= k < D implies (p.0@[k] <= #[trigger] c.0@[k] <= key.0@[k]) || (key.0@[k] <= c.0@[k] <= p.0@[k]) by {
            assert(b.min.lek(&key, k) && key.lek(&b.max, k) && c.lek(&p, k) == le(c.0@[k], p.0@[k]) && p.lek(&c, k) == le(p.0@[k], c.0@[k]));
            assert(b.min.lek(&c, k) && c.lek(&b.max, k));
        }
        lemma_closer(c, key, p);
    }
    lemma_clamp(b, p);
}
/// An array of any values exists.
#[verifier::external_body]
proof fn axiom_array<T, const D: usize>(s: Seq<T>) -> (a: [T; D])
    requires s.len() == D
    ensures a@ == s
{ unimplemented!() }
/// The nearest point exists.
proof fn lemma_clamp<const D: usize>(b: SAABB<i64, D>, p: SVec<i64, D>)
    requires proper(b)
    ensures exists|c: SVec<i64, D>| nearest(c, p, b)
{
    let s = Seq::new(D as nat, |k: int| if p.0@[k] < b.min.0@[k] { b.min.0@[k] } else if p.0@[k] > b.max.0@[k] { b.max.0@[k] } else { p.0@[k] });
    let c = SVec(axiom_array::<i64, D>(s));
    assert forall|k: int| #![trigger c.lek(&b.max, k)] #![trigger b.min.lek(&c, k)] #![trigger c.lek(&p, k)] #![trigger p.lek(&c, k)] 0 <= k < D implies
        b.min.lek(&c, k) && c.lek(&b.max, k) && (c.lek(&p, k) || c.lek(&b.min, k)) && (p.lek(&c, k) || b.max.lek(&c, k)) by {
        assert(b.min.lek(&b.max, k));
        assert(c.0@[k] == s[k]);
    }
    assert(nearest(c, p, b));
}
/// A box is no farther from a point than any box in it.
pub proof fn theorem_box_no_farther_than_its_boxes<const D: usize>(b: SAABB<i64, D>, key: SAABB<i64, D>, p: SVec<i64, D>)
    requires box_in_box(b, key), proper(key), key.dist_req(&p)
    ensures b.dist_req(&p), b.dist(&p) <= key.dist(&p)
{
    lemma_clamp(key, p);
    let c = choose|c: SVec<i64, D>| nearest(c, p, key);
    assert(in_box(b, c)) by {
        assert forall|k: int| #![trigger b.min.lek(&c, k)] #![trigger c.lek(&b.max, k)] 0 <= k < D implies b.min.lek(&c, k) && c.lek(&b.max, k) by {
            assert(b.min.lek(&key.min, k) && key.max.lek(&b.max, k) && key.min.lek(&c, k) && c.lek(&key.max, k));
        }
    }
    theorem_box_no_farther_than_its_points(b, c, p);
}
