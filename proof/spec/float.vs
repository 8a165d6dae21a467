//! an f64 is a finite real, an infinity or not a number; its operators are IEEE 754's: exact on integers up to 2^53, otherwise within half an ulp of the real result, with the standard's rules for zero, infinities and NaN (assumed)
//! a scalar is an integer: clone, subtraction without overflow and conversion to f64 are exact (assumed for user scalars; shown for i32, given an exact conversion)
//! coordinates below 2^20 in absolute value; boxes with min <= max
//@ include geom.vs
//@ module ieee
//@ text
use super::*;
use core::cmp::Ordering;
use core::ops::{Add, Sub, Mul, Div};
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
/// What an f64 stands for.
pub enum Num { Nan, NegInf, Fin(real), PosInf }
#[verifier::external_body]
#[derive(Copy)]
pub struct f64 { x: u64 }
impl Clone for f64 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn re(i: int) -> real { i as real }
/// 2^-53, half an ulp
pub open spec fn u() -> real { 1real / 9007199254740992real }
/// What IEEE 754 says of a result whose exact value is x: zero is exact, integers up to 2^53 are, and what is neither tiny nor huge is off by at most half an ulp.
pub open spec fn rounded(r: Num, x: real) -> bool {
    &&& x == 0real ==> r == Num::Fin(0real)
    &&& 1real / 1267650600228229401496703205376real <= rabs(x) <= 1267650600228229401496703205376real ==> r is Fin && rabs(r->Fin_0 - x) <= u() * rabs(x)
    &&& forall|i: int| -9007199254740992 <= i <= 9007199254740992 && x == #[trigger] re(i) ==> r == Num::Fin(x)
}
pub open spec fn neg(a: Num) -> Num {
    match a { Num::Nan => Num::Nan, Num::NegInf => Num::PosInf, Num::PosInf => Num::NegInf, Num::Fin(x) => Num::Fin(-x) }
}
pub open spec fn inf(positive: bool) -> Num { if positive { Num::PosInf } else { Num::NegInf } }
pub open spec fn add_rel(a: Num, b: Num, r: Num) -> bool {
    match (a, b) {
        (Num::Nan, _) => r is Nan,
        (_, Num::Nan) => r is Nan,
        (Num::Fin(x), Num::Fin(y)) => rounded(r, x + y),
        (Num::Fin(x), _) => r == b,
        (_, Num::Fin(y)) => r == a,
        _ => if a == b { r == a } else { r is Nan },
    }
}
pub open spec fn positive(a: Num) -> bool { match a { Num::Fin(x) => x > 0real, Num::PosInf => true, _ => false } }
pub open spec fn zero(a: Num) -> bool { a == Num::Fin(0real) }
pub open spec fn mul_rel(a: Num, b: Num, r: Num) -> bool {
    match (a, b) {
        (Num::Nan, _) => r is Nan,
        (_, Num::Nan) => r is Nan,
        (Num::Fin(x), Num::Fin(y)) => rounded(r, x * y),
        _ => if zero(a) || zero(b) { r is Nan } else { r == inf(positive(a) == positive(b)) },
    }
}
pub open spec fn div_rel(a: Num, b: Num, r: Num) -> bool {
    match (a, b) {
        (Num::Nan, _) => r is Nan,
        (_, Num::Nan) => r is Nan,
        (Num::Fin(x), Num::Fin(y)) => if y != 0real { rounded(r, x / y) } else if x == 0real { r is Nan } else { r is PosInf || r is NegInf },
        (Num::Fin(x), _) => zero(r),
        (_, Num::Fin(y)) => if y == 0real { r is PosInf || r is NegInf } else { r == inf(positive(a) == positive(b)) },
        _ => r is Nan,
    }
}
pub open spec fn num_cmp(a: Num, b: Num) -> Option<Ordering> {
    match (a, b) {
        (Num::Nan, _) => None,
        (_, Num::Nan) => None,
        (Num::Fin(x), Num::Fin(y)) => Some(if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater }),
        (Num::Fin(_), _) => Some(if b is PosInf { Ordering::Less } else { Ordering::Greater }),
        (_, Num::Fin(_)) => Some(if a is PosInf { Ordering::Greater } else { Ordering::Less }),
        _ => Some(if a == b { Ordering::Equal } else if b is PosInf { Ordering::Less } else { Ordering::Greater }),
    }
}
pub open spec fn num_lt(a: Num, b: Num) -> bool { num_cmp(a, b) == Some(Ordering::Less) }
pub open spec fn num_le(a: Num, b: Num) -> bool { num_lt(a, b) || num_cmp(a, b) == Some(Ordering::Equal) }
pub broadcast axiom fn add_ax(a: f64, b: f64) ensures #![trigger fadd(a, b)] add_rel(a.v(), b.v(), fadd(a, b).v());
pub broadcast axiom fn sub_ax(a: f64, b: f64) ensures #![trigger fsub(a, b)] add_rel(a.v(), neg(b.v()), fsub(a, b).v());
pub broadcast axiom fn mul_ax(a: f64, b: f64) ensures #![trigger fmul(a, b)] mul_rel(a.v(), b.v(), fmul(a, b).v());
pub broadcast axiom fn div_ax(a: f64, b: f64) ensures #![trigger fdiv(a, b)] div_rel(a.v(), b.v(), fdiv(a, b).v());
pub broadcast group ieee_ax { add_ax, sub_ax, mul_ax, div_ax }
impl f64 {
    pub uninterp spec fn v(self) -> Num;
    #[verifier::external_body]
    pub fn infinity() -> (r: f64) ensures r.v() is PosInf { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_infinity() -> (r: f64) ensures r.v() is NegInf { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: f64) ensures r.v() is Fin, r.v()->Fin_0 >= 1267650600228229401496703205376real { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == (self.v() is Nan) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == (self.v() is Fin) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: f64) -> (r: f64)
        ensures
            self.v() is Nan ==> r.v() == o.v(), o.v() is Nan ==> r.v() == self.v(),
            !(self.v() is Nan || o.v() is Nan) ==> r.v() == (if num_lt(o.v(), self.v()) { o.v() } else { self.v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: f64) -> (r: f64)
        ensures
            self.v() is Nan ==> r.v() == o.v(), o.v() is Nan ==> r.v() == self.v(),
            !(self.v() is Nan || o.v() is Nan) ==> r.v() == (if num_lt(self.v(), o.v()) { o.v() } else { self.v() })
    { unimplemented!() }
}
/// A literal.
#[verifier::external_body]
pub fn lit(i: i32) -> (r: f64) ensures r.v() == Num::Fin(i as int as real) { unimplemented!() }
impl AddSpecImpl for f64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: f64) -> bool { true }
    open spec fn add_spec(self, rhs: f64) -> f64 { fadd(self, rhs) }
}
impl Add for f64 {
    type Output = f64;
    #[verifier::external_body]
    fn add(self, rhs: f64) -> f64 { unimplemented!() }
}
impl SubSpecImpl for f64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: f64) -> bool { true }
    open spec fn sub_spec(self, rhs: f64) -> f64 { fsub(self, rhs) }
}
impl Sub for f64 {
    type Output = f64;
    #[verifier::external_body]
    fn sub(self, rhs: f64) -> f64 { unimplemented!() }
}
impl MulSpecImpl for f64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: f64) -> bool { true }
    open spec fn mul_spec(self, rhs: f64) -> f64 { fmul(self, rhs) }
}
impl Mul for f64 {
    type Output = f64;
    #[verifier::external_body]
    fn mul(self, rhs: f64) -> f64 { unimplemented!() }
}
impl DivSpecImpl for f64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: f64) -> bool { true }
    open spec fn div_spec(self, rhs: f64) -> f64 { fdiv(self, rhs) }
}
impl Div for f64 {
    type Output = f64;
    #[verifier::external_body]
    fn div(self, rhs: f64) -> f64 { unimplemented!() }
}
impl PartialEqSpecImpl for f64 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &f64) -> bool { num_cmp(self.v(), rhs.v()) == Some(Ordering::Equal) }
}
impl PartialEq for f64 {
    #[verifier::external_body]
    fn eq(&self, rhs: &f64) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for f64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, rhs: &f64) -> Option<Ordering> { num_cmp(self.v(), rhs.v()) }
}
impl PartialOrd for f64 {
    #[verifier::external_body]
    fn partial_cmp(&self, rhs: &f64) -> Option<Ordering> { unimplemented!() }
}
/// A scalar's integer value.
pub trait Scalar: Sized {
    spec fn ival(self) -> int;
}
pub open spec fn within(i: int, m: int) -> bool { -m <= i <= m }
/// Cloning, subtracting and converting small scalars is exact.
pub open spec fn flaw<N: Clone + Sub<Output = N> + Into<f64> + Scalar>() -> bool {
    &&& vector::clone_id::<N>() && N::obeys_sub_spec()
    &&& forall|a: N, b: N| #![trigger a.sub_req(b)] #![trigger a.sub_spec(b)] within(a.ival(), 0x10_0000) && within(b.ival(), 0x10_0000) ==> a.sub_req(b) && a.sub_spec(b).ival() == a.ival() - b.ival()
    &&& forall|a: N| #[trigger] call_requires(<N as Into<f64>>::into, (a,))
    &&& forall|a: N, r: f64| #[trigger] call_ensures(<N as Into<f64>>::into, (a,), r) && within(a.ival(), 0x20_0000) ==> r.v() == Num::Fin(a.ival() as real)
}
impl Scalar for i8 { open spec fn ival(self) -> int { self as int } }
impl From<i8> for f64 {
    #[verifier::external_body]
    fn from(x: i8) -> (r: f64) ensures r.v() == Num::Fin(x as int as real) { unimplemented!() }
}
impl Scalar for i16 { open spec fn ival(self) -> int { self as int } }
impl From<i16> for f64 {
    #[verifier::external_body]
    fn from(x: i16) -> (r: f64) ensures r.v() == Num::Fin(x as int as real) { unimplemented!() }
}
impl Scalar for i32 { open spec fn ival(self) -> int { self as int } }
impl From<i32> for f64 {
    #[verifier::external_body]
    fn from(x: i32) -> (r: f64) ensures r.v() == Num::Fin(x as int as real) { unimplemented!() }
}

//@ module slab
//@ text
use super::*;
use super::ieee::*;
pub open spec fn eps() -> real { 1real / 2251799813685248real }   // 2^-51
pub open spec fn rmin(x: real, y: real) -> real { if x <= y { x } else { y } }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
/// r is x up to the rounding of a division and a product
pub open spec fn near(r: real, x: real) -> bool { rabs(r - x) <= eps() * rabs(x) }
pub open spec fn big() -> int { 0x40_0000 }
/// x is a quotient of small integers
pub open spec fn rat(x: real, n: int, d: int) -> bool { 0 < d <= big() && -big() <= n <= big() && x * (d as real) == n as real }

pub proof fn near_max(r: real, x: real, s: real, y: real)
    requires near(r, x), near(s, y),
    ensures near(rmax(r, s), rmax(x, y)), near(rmin(r, s), rmin(x, y)),
{
    let e = eps();
    let (ex, ey) = (e * rabs(x), e * rabs(y));
    assert(ey <= ex + rabs(x - y)) by (nonlinear_arith) requires ex == e * rabs(x), ey == e * rabs(y), 0real < e < 1real;
    assert(ex <= ey + rabs(x - y)) by (nonlinear_arith) requires ex == e * rabs(x), ey == e * rabs(y), 0real < e < 1real;
}
pub proof fn to_real(x: int, y: int)
    ensures (x * y) as real == (x as real) * (y as real),
    decreases (if y < 0 { -y } else { y }),
{
    let (a, b) = (x as real, y as real);
    if y == 0 {
        assert(x * y == 0) by (nonlinear_arith) requires y == 0;
        assert(a * b == 0real) by (nonlinear_arith) requires b == 0real;
    } else if y > 0 {
        to_real(x, y - 1);
        assert(x * y == x * (y - 1) + x) by (nonlinear_arith);
        assert(a * b == a * (b - 1real) + a) by (nonlinear_arith);
    } else {
        to_real(x, y + 1);
        assert(x * y == x * (y + 1) - x) by (nonlinear_arith);
        assert(a * b == a * (b + 1real) - a) by (nonlinear_arith);
    }
}
pub proof fn gap(x: real, xn: int, xd: int, y: real, yn: int, yd: int)
    requires rat(x, xn, xd), rat(y, yn, yd), x < y,
    ensures eps() * (rabs(x) + rabs(y)) < y - x,
{
    let (a, b) = (xd as real, yd as real);
    let (p, q) = (xn as real, yn as real);
    assert(p * b < q * a) by (nonlinear_arith) requires x * a == p, y * b == q, x < y, a > 0real, b > 0real;
    to_real(xn, yd);
    to_real(yn, xd);
    assert((xn * yd) as real == p * b);
    assert((yn * xd) as real == q * a);
    assert(xn * yd + 1 <= yn * xd);
    let ab = a * b;
    assert((y - x) * ab >= 1real) by (nonlinear_arith) requires x * a == p, y * b == q, ab == a * b, q * a >= p * b + 1real;
    assert(rabs(x) * a == rabs(p)) by (nonlinear_arith) requires x * a == p, a > 0real;
    assert(rabs(y) * b == rabs(q)) by (nonlinear_arith) requires y * b == q, b > 0real;
    let m = 4194304real;
    assert((rabs(x) + rabs(y)) * ab <= 2real * m * m) by (nonlinear_arith) requires rabs(x) * a == rabs(p), rabs(y) * b == rabs(q), rabs(p) <= m, rabs(q) <= m, 0real < a <= m, 0real < b <= m, ab == a * b;
    assert(ab > 0real) by (nonlinear_arith) requires a > 0real, b > 0real, ab == a * b;
    assert(eps() * (2real * m * m) < 1real) by (nonlinear_arith) requires m == 4194304real, eps() == 1real / 2251799813685248real;
    let s = rabs(x) + rabs(y);
    assert(eps() * s < y - x) by (nonlinear_arith) requires s * ab <= 2real * m * m, eps() * (2real * m * m) < 1real, (y - x) * ab >= 1real, ab > 0real, eps() > 0real;
}
pub proof fn quot(a: real, d: real, q: real, t: real)
    requires d != 0real, rabs(q - 1real / d) <= u() * rabs(1real / d), rabs(t - a * q) <= u() * rabs(a * q),
    ensures near(t, a / d),
{
    let i = 1real / d;
    assert(a / d == a * i) by (nonlinear_arith) requires i == 1real / d, d != 0real;
    let e = a * q - a * i;
    assert(rabs(e) <= u() * rabs(a * i)) by (nonlinear_arith) requires rabs(q - i) <= u() * rabs(i), e == a * q - a * i;
    let z = rabs(a * i);
    assert(rabs(a * q) <= z + u() * z);
    assert(u() * rabs(a * q) <= u() * (z + u() * z)) by (nonlinear_arith) requires rabs(a * q) <= z + u() * z, u() > 0real;
    assert(rabs(t - a * i) <= u() * z + u() * z + u() * u() * z) by(nonlinear_arith) requires rabs(t - a*q) <= u() * rabs(a*q), u() * rabs(a * q) <= u() * (z + u() * z), rabs(e) <= u() * z, e == a * q - a * i;
    assert(u() * u() * z <= u() * z) by(nonlinear_arith) requires z >= 0real, 0real < u() < 1real;
    assert(rabs(t - a * i) <= eps() * z) by(nonlinear_arith) requires rabs(t - a * i) <= u() * z + u() * z + u() * u() * z, u() * u() * z <= u() * z, eps() == 4real * u(), z >= 0real;
}

/// The parameters of a ray that lie within the slabs of the first n dimensions: empty, or x to y, or x on.
pub struct St { pub empty: bool, pub open: bool, pub x: real, pub y: real }
/// lo <= t * d <= hi per dimension, t between 0 and cap (or from 0 on, if open)
pub open spec fn st(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool, n: int) -> St
    decreases n,
{
    if n <= 0 {
        St { empty: false, open, x: 0real, y: 1real }
    } else {
        let s = st(lo, hi, dl, open, n - 1);
        step(s, lo[n - 1] as real, hi[n - 1] as real, dl[n - 1] as real)
    }
}
pub open spec fn step(s: St, a: real, c: real, d: real) -> St {
    if d == 0real {
        St { empty: s.empty || !(a <= 0real <= c), ..s }
    } else {
        let (p, q) = (a / d, c / d);
        St { empty: s.empty, open: false, x: rmax(s.x, rmin(p, q)), y: if s.open { rmax(p, q) } else { rmin(s.y, rmax(p, q)) } }
    }
}
pub open spec fn on(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, t: real, k: int) -> bool { (lo[k] as real) <= t * (dl[k] as real) <= (hi[k] as real) }
pub open spec fn inside(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, t: real, k: int) -> bool { (lo[k] as real) < t * (dl[k] as real) < (hi[k] as real) }
/// The parameters of the points of a ray (open) or of a segment.
pub open spec fn dom(open: bool, t: real) -> bool { 0real <= t && (open || t <= 1real) }
pub open spec fn within_st(s: St, t: real) -> bool { !s.empty && s.x <= t && (s.open || t <= s.y) }
pub open spec fn small(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>) -> bool {
    &&& lo.len() == hi.len() == dl.len()
    &&& forall|k: int| 0 <= k < lo.len() ==> within(#[trigger] lo[k], 0x20_0000) && within(hi[k], 0x20_0000) && within(dl[k], 0x20_0000) && lo[k] <= hi[k]
}
proof fn one_slab(a: real, c: real, d: real, t: real)
    requires a <= c, d != 0real,
    ensures
        (a <= t * d <= c) == (rmin(a / d, c / d) <= t <= rmax(a / d, c / d)),
        (a < t * d < c) ==> rmin(a / d, c / d) < t < rmax(a / d, c / d),
{
    let (p, q) = (a / d, c / d);
    assert(p * d == a) by (nonlinear_arith) requires p == a / d, d != 0real;
    assert(q * d == c) by (nonlinear_arith) requires q == c / d, d != 0real;
    if d > 0real {
        assert((p <= t) == (a <= t * d)) by (nonlinear_arith) requires p * d == a, d > 0real;
        assert((t <= q) == (t * d <= c)) by (nonlinear_arith) requires q * d == c, d > 0real;
        assert((p < t) == (a < t * d)) by (nonlinear_arith) requires p * d == a, d > 0real;
        assert((t < q) == (t * d < c)) by (nonlinear_arith) requires q * d == c, d > 0real;
        assert(p <= q) by (nonlinear_arith) requires p * d == a, q * d == c, a <= c, d > 0real;
    } else {
        assert((t <= p) == (a <= t * d)) by (nonlinear_arith) requires p * d == a, d < 0real;
        assert((q <= t) == (t * d <= c)) by (nonlinear_arith) requires q * d == c, d < 0real;
        assert((t < p) == (a < t * d)) by (nonlinear_arith) requires p * d == a, d < 0real;
        assert((q < t) == (t * d < c)) by (nonlinear_arith) requires q * d == c, d < 0real;
        assert(q <= p) by (nonlinear_arith) requires p * d == a, q * d == c, a <= c, d < 0real;
    }
}
/// The state describes exactly the points that lie in the slabs seen so far.
pub proof fn lemma_st(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool, n: int, t: real)
    requires 0 <= n <= lo.len(), small(lo, hi, dl),
    ensures
        (dom(open, t) && forall|k: int| 0 <= k < n ==> #[trigger] on(lo, hi, dl, t, k)) == within_st(st(lo, hi, dl, open, n), t),
        dom(open, t) && (forall|k: int| 0 <= k < n ==> #[trigger] inside(lo, hi, dl, t, k)) ==> ({
            let s = st(lo, hi, dl, open, n);
            within_st(s, t) && (s.x == t ==> t == 0real) && (!s.open && s.y == t ==> !open && t == 1real)
        }),
        st(lo, hi, dl, open, n).x >= 0real,
    decreases n,
{
    if n > 0 {
        lemma_st(lo, hi, dl, open, n - 1, t);
        let s = st(lo, hi, dl, open, n - 1);
        let (a, c, d) = (lo[n - 1] as real, hi[n - 1] as real, dl[n - 1] as real);
        assert(lo[n - 1] <= hi[n - 1]);
        if d != 0real {
            one_slab(a, c, d, t);
        } else {
            assert(t * d == 0real) by (nonlinear_arith) requires d == 0real;
        }
        assert(within_st(st(lo, hi, dl, open, n), t) == (within_st(s, t) && on(lo, hi, dl, t, n - 1)));
        if forall|k: int| 0 <= k < n ==> #[trigger] inside(lo, hi, dl, t, k) {
            assert(inside(lo, hi, dl, t, n - 1));
        }
    }
}
proof fn lemma_rat(a: int, d: int)
    requires within(a, 0x20_0000), within(d, 0x20_0000), d != 0,
    ensures is_rat(a as real / (d as real)),
{
    let (p, q) = (a as real, d as real);
    let x = p / q;
    assert(x * q == p) by (nonlinear_arith) requires x == p / q, q != 0real;
    if d > 0 {
        assert(rat(x, a, d));
    } else {
        assert(x * (-q) == -p) by (nonlinear_arith) requires x * q == p;
        assert(rat(x, -a, -d));
    }
}
pub open spec fn is_rat(x: real) -> bool { exists|n: int, m: int| rat(x, n, m) }
pub proof fn lemma_rats(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool, n: int)
    requires 0 <= n <= lo.len(), small(lo, hi, dl),
    ensures is_rat(st(lo, hi, dl, open, n).x), is_rat(st(lo, hi, dl, open, n).y),
    decreases n,
{
    if n > 0 {
        lemma_rats(lo, hi, dl, open, n - 1);
        assert(lo[n - 1] <= hi[n - 1]);
        if dl[n - 1] != 0 {
            lemma_rat(lo[n - 1], dl[n - 1]);
            lemma_rat(hi[n - 1], dl[n - 1]);
        }
    } else {
        assert(rat(0real, 0, 1));
        assert(rat(1real, 1, 1));
    }
}
pub open spec fn fmin(a: Num, b: Num) -> Num { if num_lt(a, b) { a } else { b } }
pub open spec fn fmax(a: Num, b: Num) -> Num { if num_lt(b, a) { a } else { b } }
pub open spec fn far() -> real { 1267650600228229401496703205376real }
/// The two floats follow the state.
pub open spec fn tracks(s: St, mn: Num, mx: Num) -> bool {
    &&& !(mn is Nan) && !(mx is Nan)
    &&& s.empty ==> num_lt(mx, mn)
    &&& !s.empty ==> mn is Fin && mx is Fin && near(mn->Fin_0, s.x) && if s.open { mx->Fin_0 >= far() } else { near(mx->Fin_0, s.y) }
}
proof fn lemma_inverse(d: real, ninv: Num)
    requires 1real <= rabs(d) <= 4194304real, div_rel(Num::Fin(1real), Num::Fin(d), ninv),
    ensures ninv is Fin, rabs(ninv->Fin_0 - 1real / d) <= u() * rabs(1real / d), 1real / 8388608real <= rabs(ninv->Fin_0) <= 2real,
{
    let i = 1real / d;
    assert(i * d == 1real) by (nonlinear_arith) requires i == 1real / d, d != 0real;
    assert(rabs(i) * rabs(d) == 1real) by (nonlinear_arith) requires i * d == 1real;
    let (ri, rd) = (rabs(i), rabs(d));
    assert(1real / 4194304real <= ri <= 1real) by (nonlinear_arith) requires ri * rd == 1real, 1real <= rd <= 4194304real;
    let e = u() * ri;
    assert(e <= ri / 2real) by (nonlinear_arith) requires e == u() * ri, ri > 0real, u() < 1real / 2real;
}
proof fn lemma_product(a: real, d: real, ninv: Num, t: Num)
    requires 1real <= rabs(d) <= 4194304real, a == 0real || 1real <= rabs(a) <= 4194304real, div_rel(Num::Fin(1real), Num::Fin(d), ninv), mul_rel(Num::Fin(a), ninv, t),
    ensures t is Fin, near(t->Fin_0, a / d), rabs(t->Fin_0) <= 16777216real,
{
    lemma_inverse(d, ninv);
    let q = ninv->Fin_0;
    let x = a * q;
    if a == 0real {
        assert(x == 0real) by (nonlinear_arith) requires x == a * q, a == 0real;
        assert(a / d == 0real) by (nonlinear_arith) requires a == 0real, d != 0real;
        assert(eps() * rabs(a / d) == 0real) by (nonlinear_arith) requires a / d == 0real;
    } else {
        let (ra, rq) = (rabs(a), rabs(q));
        assert(rabs(x) == ra * rq) by (nonlinear_arith) requires x == a * q, ra == rabs(a), rq == rabs(q);
        assert(1real / 8388608real <= ra * rq <= 8388608real) by (nonlinear_arith) requires 1real <= ra <= 4194304real, 1real / 8388608real <= rq <= 2real;
        assert(rabs(t->Fin_0 - x) <= u() * rabs(x));
        quot(a, d, q, t->Fin_0);
        let z = rabs(x);
        assert(u() * z <= z) by (nonlinear_arith) requires z >= 0real, 0real < u() < 1real;
    }
}
/// What holds before the first turn.
pub proof fn lemma_start(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool)
    ensures forall|mx: Num| #![trigger tracks(st(lo, hi, dl, open, 0), Num::Fin(0real), mx)]
        mx is Fin && (if open { mx->Fin_0 >= far() } else { mx->Fin_0 == 1real }) ==> tracks(st(lo, hi, dl, open, 0), Num::Fin(0real), mx)
{
    assert(eps() * rabs(0real) == 0real) by (nonlinear_arith);
    assert(eps() * rabs(1real) >= 0real) by (nonlinear_arith) requires eps() > 0real;
}
/// One turn of the slab loop.
pub proof fn lemma_turn(s: St, a: int, c: int, d: int, ninv: Num, t1: Num, t2: Num, mn: Num, mx: Num)
    requires
        tracks(s, mn, mx), a <= c, within(a, 0x20_0000), within(c, 0x20_0000), within(d, 0x20_0000),
        div_rel(Num::Fin(1real), Num::Fin(d as real), ninv), mul_rel(Num::Fin(a as real), ninv, t1), mul_rel(Num::Fin(c as real), ninv, t2),
    ensures
        tracks(step(s, a as real, c as real, d as real), fmin(fmax(t1, mn), fmax(t2, mn)), fmax(fmin(t1, mx), fmin(t2, mx))),
{
    let (mn2, mx2) = (fmin(fmax(t1, mn), fmax(t2, mn)), fmax(fmin(t1, mx), fmin(t2, mx)));
    assert(!(mn2 is Nan) && !(mx2 is Nan));
    assert(num_le(mn, mn2) && num_le(mx2, mx));
    let (ra, rc, rd) = (a as real, c as real, d as real);
    if s.empty {
        assert(num_lt(mx2, mn2));
    } else if d == 0 {
    } else {
        lemma_product(ra, rd, ninv, t1);
        lemma_product(rc, rd, ninv, t2);
        let (p, q) = (ra / rd, rc / rd);
        let (f1, f2, m, x) = (t1->Fin_0, t2->Fin_0, mn->Fin_0, mx->Fin_0);
        near_max(f1, p, m, s.x);
        near_max(f2, q, m, s.x);
        near_max(rmax(f1, m), rmax(p, s.x), rmax(f2, m), rmax(q, s.x));
        assert(rmin(rmax(p, s.x), rmax(q, s.x)) == rmax(s.x, rmin(p, q)));
        if s.open {
            near_max(f1, p, f2, q);
        } else {
            near_max(f1, p, x, s.y);
            near_max(f2, q, x, s.y);
            near_max(rmin(f1, x), rmin(p, s.y), rmin(f2, x), rmin(q, s.y));
            assert(rmax(rmin(p, s.y), rmin(q, s.y)) == rmin(s.y, rmax(p, q)));
        }
    }
}
/// The line or ray passes through the interior of the box.
pub open spec fn meets(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool) -> bool {
    exists|t: real| #[trigger] dom(open, t) && forall|k: int| 0 <= k < lo.len() ==> #[trigger] inside(lo, hi, dl, t, k)
}
/// It has a point in common with the box. (Both are closed: without one they are a positive distance apart.)
pub open spec fn touches(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool) -> bool {
    exists|t: real| #[trigger] dom(open, t) && forall|k: int| 0 <= k < lo.len() ==> #[trigger] on(lo, hi, dl, t, k)
}
/// The final comparison.
pub proof fn lemma_verdict(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool, mn: Num, mx: Num)
    requires small(lo, hi, dl), tracks(st(lo, hi, dl, open, lo.len() as int), mn, mx),
    ensures
        meets(lo, hi, dl, open) ==> num_le(mn, mx),
        !touches(lo, hi, dl, open) ==> !num_le(mn, mx),
{
    lemma_after(lo, hi, dl, open, mn, mx, lo.len() as int);
}
/// The comparison after n slabs.
pub proof fn lemma_after(lo: Seq<int>, hi: Seq<int>, dl: Seq<int>, open: bool, mn: Num, mx: Num, n: int)
    requires small(lo, hi, dl), 0 <= n <= lo.len(), tracks(st(lo, hi, dl, open, n), mn, mx),
    ensures
        meets(lo, hi, dl, open) ==> num_le(mn, mx),
        n == lo.len() && !touches(lo, hi, dl, open) ==> !num_le(mn, mx),
{
    let s = st(lo, hi, dl, open, n);
    lemma_rats(lo, hi, dl, open, n);
    let (xn, xd) = choose|a: int, b: int| rat(s.x, a, b);
    let (yn, yd) = choose|a: int, b: int| rat(s.y, a, b);
    if !s.empty && !s.open {
        if s.x < s.y {
            gap(s.x, xn, xd, s.y, yn, yd);
        } else if s.y < s.x {
            gap(s.y, yn, yd, s.x, xn, xd);
        }
    }
    if !s.empty && s.open {
        assert(xn as real <= 4194304real);
        let (x, b, p) = (s.x, xd as real, xn as real);
        assert(x <= 4194304real) by (nonlinear_arith) requires x * b == p, b >= 1real, p <= 4194304real;
        assert(mn->Fin_0 <= 2real * 4194304real) by {
            let z = rabs(x);
            lemma_st(lo, hi, dl, open, n, 0real);
            assert(eps() * z <= z) by (nonlinear_arith) requires z >= 0real, 0real < eps() < 1real;
        }
    }
    if meets(lo, hi, dl, open) {
        let t = choose|t: real| #[trigger] dom(open, t) && forall|k: int| 0 <= k < lo.len() ==> #[trigger] inside(lo, hi, dl, t, k);
        lemma_st(lo, hi, dl, open, n, t);
    }
    if n == lo.len() && !touches(lo, hi, dl, open) {
        lemma_st(lo, hi, dl, open, n, s.x);
        if within_st(s, s.x) {
            assert(dom(open, s.x));
        }
    }
}

//@ module slab_code from src/intersects.rs
//@ uses
use super::*;
use super::ieee::*;
use super::slab::*;
use super::{bounds::*, vector::*};
use core::ops::Sub;
//@ drop Intersects
//@ text
broadcast use ieee_ax;
/// The box, relative to the origin; and the direction.
pub open spec fn lows<N: Scalar, const D: usize>(b: &SAABB<N, D>, o: &SVec<N, D>) -> Seq<int> { Seq::new(D as nat, |k: int| b.min.0@[k].ival() - o.0@[k].ival()) }
pub open spec fn highs<N: Scalar, const D: usize>(b: &SAABB<N, D>, o: &SVec<N, D>) -> Seq<int> { Seq::new(D as nat, |k: int| b.max.0@[k].ival() - o.0@[k].ival()) }
pub open spec fn dirs<N: Scalar, const D: usize>(d: &SVec<N, D>) -> Seq<int> { Seq::new(D as nat, |k: int| d.0@[k].ival()) }
pub open spec fn vsmall<N: Scalar, const D: usize>(d: &SVec<N, D>, m: int) -> bool { forall|k: int| 0 <= k < D ==> within((#[trigger] d.0@[k]).ival(), m) }
pub open spec fn box_le<N: Scalar, const D: usize>(b: &SAABB<N, D>) -> bool { forall|k: int| #![trigger b.min.0@[k]] #![trigger b.max.0@[k]] 0 <= k < D ==> b.min.0@[k].ival() <= b.max.0@[k].ival() }
pub open spec fn slab_req<N: Clone + Sub<Output = N> + Into<f64> + Scalar, const D: usize>(b: &SAABB<N, D>, o: &SVec<N, D>, d: &SVec<N, D>) -> bool {
    flaw::<N>() && vsmall(&b.min, 0x10_0000) && vsmall(&b.max, 0x10_0000) && vsmall(o, 0x10_0000) && vsmall(d, 0x20_0000) && box_le(b)
}
pub open spec fn verdict<N: Scalar, const D: usize>(res: bool, b: &SAABB<N, D>, o: &SVec<N, D>, d: &SVec<N, D>, open: bool) -> bool {
    &&& meets(lows(b, o), highs(b, o), dirs(d), open) ==> res
    &&& !touches(lows(b, o), highs(b, o), dirs(d), open) ==> !res
}
//@ rewrite f64::INFINITY ==> f64::infinity()
//@ rewrite f64::NEG_INFINITY ==> f64::neg_infinity()
//@ rewrite f64::MAX ==> f64::max_value()
//@ rewrite 0.0 ==> lit(0)
//@ rewrite 1.0 ==> lit(1)
//@ rewrite N: Clone + Sub<Output = N> + Into<f64> ==> N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ rewrite delta[$i:id] ==> delta.index($i)
//@ rewrite origin[$i:id] ==> origin.index($i)
//@ rewrite min[$i:id] ==> min.index($i)
//@ rewrite max[$i:id] ==> max.index($i)
//@ fn f64_min
    ensures res.v() == fmin(lhs.v(), rhs.v())
//@ fn f64_max
    ensures res.v() == fmax(lhs.v(), rhs.v())
//@ fn ray_bounds_intersect
attr #[verifier::loop_isolation(false)]
    requires slab_req(b, origin, delta)
    ensures verdict(res, b, origin, delta, true)
//@ start
        let ghost (lo, hi, dl) = (lows(b, origin), highs(b, origin), dirs(delta));
        proof { assert(small(lo, hi, dl)); lemma_start(lo, hi, dl, true); }
//@ loop 0
        invariant
            tracks(st(lo, hi, dl, true, dim as int), tmin.v(), tmax.v()),
//@ loopstart 0
            let ghost (mn, mx) = (tmin.v(), tmax.v());
            let ghost k = dim as int;
            proof { assert(lo[k] <= hi[k]); assert(within(b.min.0@[k].ival(), 0x10_0000) && within(b.max.0@[k].ival(), 0x10_0000) && within(origin.0@[k].ival(), 0x10_0000) && within(delta.0@[k].ival(), 0x20_0000)); }
//@ after let t2 = $e;
            proof {
                lemma_turn(st(lo, hi, dl, true, k), lo[k], hi[k], dl[k], n_inv.v(), t1.v(), t2.v(), mn, mx);
                lemma_after(lo, hi, dl, true, fmin(fmax(t1.v(), mn), fmax(t2.v(), mn)), fmax(fmin(t1.v(), mx), fmin(t2.v(), mx)), k + 1);
            }
//@ afterloop 0
        proof { lemma_verdict(lo, hi, dl, true, tmin.v(), tmax.v()); }
//@ fn line_bounds_intersect
attr #[verifier::loop_isolation(false)]
    requires slab_req(b, origin, delta)
    ensures verdict(res, b, origin, delta, false)
//@ start
        let ghost (lo, hi, dl) = (lows(b, origin), highs(b, origin), dirs(delta));
        proof { assert(small(lo, hi, dl)); lemma_start(lo, hi, dl, false); }
//@ loop 0
        invariant
            tracks(st(lo, hi, dl, false, dim as int), tmin.v(), tmax.v()),
//@ loopstart 0
            let ghost (mn, mx) = (tmin.v(), tmax.v());
            let ghost k = dim as int;
            proof { assert(lo[k] <= hi[k]); assert(within(b.min.0@[k].ival(), 0x10_0000) && within(b.max.0@[k].ival(), 0x10_0000) && within(origin.0@[k].ival(), 0x10_0000) && within(delta.0@[k].ival(), 0x20_0000)); }
//@ after let t2 = $e;
            proof {
                lemma_turn(st(lo, hi, dl, false, k), lo[k], hi[k], dl[k], n_inv.v(), t1.v(), t2.v(), mn, mx);
                lemma_after(lo, hi, dl, false, fmin(fmax(t1.v(), mn), fmax(t2.v(), mn)), fmax(fmin(t1.v(), mx), fmin(t2.v(), mx)), k + 1);
            }
//@ afterloop 0
        proof { lemma_verdict(lo, hi, dl, false, tmin.v(), tmax.v()); }

//@ module vector_index from src/vector.rs
//@ uses
use super::*;
use super::vector::*;
//@ only SVec<N,D> as Index<usize>; SVec<N,D> as IndexMut<usize>
//@ rewrite Self::Output ==> N
//@ item SVec<N,D> as Index<usize>
header <N, const D: usize> SVec<N, D>
//@ item SVec<N,D> as IndexMut<usize>
header <N, const D: usize> SVec<N, D>
//@ fn SVec<N,D> as Index<usize>::index
    requires index < D
    ensures *res == self.0@[index as int]
//@ fn SVec<N,D> as IndexMut<usize>::index_mut
    requires index < D
    ensures *res == old(self).0@[index as int], final(self).0@ == old(self).0@.update(index as int, *final(res))

//@ module slab_line from src/geom/line.rs
//@ uses
use super::*;
use super::ieee::*;
use super::slab_code::*;
use super::geom_line::Line;
use super::{bounds::*, vector::*};
use core::ops::Sub;
use vstd::std_specs::ops::*;
//@ only Line::delta; Line<SVec<N,D>> as Intersects<SAABB<N,D>>
//@ rewrite impl<V> Line<V> where V: Sub<Output = V> + Clone, ==> impl<N: Sub<Output = N> + Clone, const D: usize> Line<SVec<N, D>>
//@ rewrite fn delta(&self) -> V ==> fn delta(&self) -> SVec<N, D>
//@ rewrite N: Ord + Clone + Sub<Output = N> + Into<f64> ==> N: Ord + Clone + Sub<Output = N> + Into<f64> + Scalar
//@ item Line<SVec<N,D>> as Intersects<SAABB<N,D>>
header <N, const D: usize> Line<SVec<N, D>> where N: Ord + Clone + Sub<Output = N> + Into<f64> + Scalar
//@ fn Line::delta
    requires clone_id::<SVec<N, D>>(), SubSpec::sub_req(self.1, self.0)
    ensures forall|k: int| 0 <= k < D ==> #[trigger] res.0@[k] == self.1.0@[k].sub_spec(self.0.0@[k])
//@ fn Line<SVec<N,D>> as Intersects<SAABB<N,D>>::intersects
    requires line_req(self, rhs)
    ensures line_verdict(res, self, rhs)
//@ start
        proof {
            assert forall|k: int| 0 <= k < D implies (#[trigger] self.1.0@[k]).sub_req(self.0.0@[k]) by { assert(within(self.0.0@[k].ival(), 0x10_0000)); }
            let dl = Seq::new(D as nat, |k: int| self.1.0@[k].ival() - self.0.0@[k].ival());
            assert forall|d: SVec<N, D>| (forall|k: int| 0 <= k < D ==> (#[trigger] d.0@[k]).ival() == dl[k]) implies #[trigger] dirs(&d) == dl by { assert(dirs(&d) =~= dl); }
            assert forall|k: int| 0 <= k < D implies within((#[trigger] self.1.0@[k]).ival(), 0x10_0000) && within(self.0.0@[k].ival(), 0x10_0000) by { }
        }
//@ text
pub open spec fn line_req<N: Ord + Clone + Sub<Output = N> + Into<f64> + Scalar, const D: usize>(l: &Line<SVec<N, D>>, b: &SAABB<N, D>) -> bool {
    flaw::<N>() && clone_id::<SVec<N, D>>() && vsmall(&b.min, 0x10_0000) && vsmall(&b.max, 0x10_0000) && box_le(b) && vsmall(&l.0, 0x10_0000) && vsmall(&l.1, 0x10_0000)
}
pub open spec fn line_verdict<N: Scalar, const D: usize>(res: bool, l: &Line<SVec<N, D>>, b: &SAABB<N, D>) -> bool {
    let dl = Seq::new(D as nat, |k: int| l.1.0@[k].ival() - l.0.0@[k].ival());
    &&& slab::meets(lows(b, &l.0), highs(b, &l.0), dl, false) ==> res
    &&& !slab::touches(lows(b, &l.0), highs(b, &l.0), dl, false) ==> !res
}

//@ module slab_ray from src/geom/ray.rs
//@ uses
use super::*;
use super::ieee::*;
use super::slab_code::*;
use super::{bounds::*, vector::*};
use core::ops::Sub;
//@ rewrite N: Clone + Sub<Output = N> + Into<f64> ==> N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ item Ray<N,D> as Intersects<SAABB<N,D>>
header <N, const D: usize> Ray<N, D> where N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ fn Ray<N,D> as Intersects<SAABB<N,D>>::intersects
    requires slab_req(rhs, &self.origin, &self.n)
    ensures verdict(res, rhs, &self.origin, &self.n, true)

//@ module slab_sphere from src/geom/sphere.rs
//@ uses
use super::*;
use super::ieee::*;
use super::slab_code::*;
use super::geom_sphere::Sphere;
use super::{bounds::*, vector::*};
use core::ops::Sub;
use vstd::std_specs::ops::*;
//@ only Sphere<N,D> as Intersects<SVec<N,D>>
//@ rewrite N: Clone + Sub<Output = N> + Into<f64> ==> N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ item Sphere<N,D> as Intersects<SVec<N,D>>
header <N, const D: usize> Sphere<N, D> where N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ text
broadcast use ieee_ax;
pub open spec fn isq(v: Seq<int>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { isq(v, n - 1) + v[n - 1] * v[n - 1] }
}
pub open spec fn offsets<N: Scalar, const D: usize>(s: &Sphere<N, D>, p: &SVec<N, D>) -> Seq<int> { Seq::new(D as nat, |k: int| p.0@[k].ival() - s.center.0@[k].ival()) }
pub open spec fn sphere_req<N: Clone + Sub<Output = N> + Into<f64> + Scalar, const D: usize>(s: &Sphere<N, D>, p: &SVec<N, D>) -> bool {
    flaw::<N>() && clone_id::<SVec<N, D>>() && 0 < D <= 2048 && vsmall(&s.center, 0x10_0000) && vsmall(p, 0x10_0000) && within(s.radius.ival(), 0x10_0000)
}
/// The point is no farther from the centre than the radius.
pub open spec fn in_sphere<N: Scalar, const D: usize>(s: &Sphere<N, D>, p: &SVec<N, D>) -> bool {
    isq(offsets(s, p), D as int) <= s.radius.ival() * s.radius.ival()
}
proof fn lemma_square(a: f64, i: int)
    requires a.v() == Num::Fin(re(i)), within(i, 0x20_0000),
    ensures fmul(a, a).v() == Num::Fin(re(i * i)), 0 <= i * i <= 0x400_0000_0000,
{
    slab::to_real(i, i);
    assert(0 <= i * i <= 0x400_0000_0000) by (nonlinear_arith) requires -0x20_0000 <= i <= 0x20_0000;
    assert(mul_rel(a.v(), a.v(), fmul(a, a).v()));
    assert(re(i) * re(i) == re(i * i));
}
proof fn lemma_sum(v: Seq<f64>, w: Seq<int>, n: int)
    requires 1 <= n <= v.len() == w.len(), n <= 2048, forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).v() == Num::Fin(re(w[k])) && within(w[k], 0x20_0000),
    ensures sqm(v, n).v() == Num::Fin(re(isq(w, n))), 0 <= isq(w, n) <= n * 0x400_0000_0000,
    decreases n,
{
    assert(v[n - 1].v() == Num::Fin(re(w[n - 1])));
    lemma_square(v[n - 1], w[n - 1]);
    assert(sq(v[n - 1]) == fmul(v[n - 1], v[n - 1]));
    if n > 1 {
        lemma_sum(v, w, n - 1);
        assert(sqm(v, n) == fadd(sqm(v, n - 1), sq(v[n - 1])));
        assert(add_rel(sqm(v, n - 1).v(), sq(v[n - 1]).v(), sqm(v, n).v()));
        assert(re(isq(w, n - 1)) + re(w[n - 1] * w[n - 1]) == re(isq(w, n)));
    } else {
        assert(isq(w, 0) == 0);
        assert(isq(w, 1) == w[0] * w[0]);
        assert(sqm(v, 1) == sq(v[0]));
    }
}
pub proof fn scalars_are_exact()
    ensures flaw::<i32>(),
{
}
//@ fn Sphere<N,D> as Intersects<SVec<N,D>>::intersects
    requires sphere_req(self, rhs)
    ensures res == in_sphere(self, rhs)
//@ start
        proof {
            assert forall|k: int| 0 <= k < D implies (#[trigger] rhs.0@[k]).sub_req(self.center.0@[k]) by { assert(within(self.center.0@[k].ival(), 0x10_0000)); }
        }
//@ closure 0 | n: N | -> (m: f64)
    ensures call_ensures(<N as Into<f64>>::into, (n,), m)
//@ after let radius: f64 = $e;
        proof {
            let w = offsets(self, rhs);
            assert forall|k: int| 0 <= k < D implies (#[trigger] delta.0@[k]).v() == Num::Fin(re(w[k])) && within(w[k], 0x20_0000) by {
                assert(within(rhs.0@[k].ival(), 0x10_0000) && within(self.center.0@[k].ival(), 0x10_0000));
            }
            lemma_sum(delta.0@, w, D as int);
            lemma_square(radius, self.radius.ival());
        }

//@ module slab_boxes from src/bounds.rs
//@ uses
use super::*;
use super::ieee::*;
use super::slab_code::*;
use super::slab_line::*;
use super::slab_ray::Ray;
use super::geom_line::Line;
use super::{bounds::*, vector::*};
use core::ops::Sub;
//@ only SAABB<N,D> as Intersects<Ray<N,D>>; SAABB<N,D> as Intersects<Line<SVec<N,D>>>
//@ rewrite Sub<Output = N> + Into<f64> ==> Sub<Output = N> + Into<f64> + Scalar
//@ rewrite fn intersects(&self, rhs: &Ray<N, D>) ==> fn intersects_ray(&self, rhs: &Ray<N, D>)
//@ rewrite fn intersects(&self, rhs: &Line<SVec<N, D>>) ==> fn intersects_line(&self, rhs: &Line<SVec<N, D>>)
//@ item SAABB<N,D> as Intersects<Ray<N,D>>
header <N, const D: usize> SAABB<N, D> where N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ item SAABB<N,D> as Intersects<Line<SVec<N,D>>>
header <N, const D: usize> SAABB<N, D> where N: Ord + Clone + Sub<Output = N> + Into<f64> + Scalar
//@ fn SAABB<N,D> as Intersects<Ray<N,D>>::intersects_ray
    requires slab_req(self, &rhs.origin, &rhs.n)
    ensures verdict(res, self, &rhs.origin, &rhs.n, true)
//@ fn SAABB<N,D> as Intersects<Line<SVec<N,D>>>::intersects_line
    requires line_req(rhs, self)
    ensures line_verdict(res, rhs, self)

//@ module slab_points from src/vector.rs
//@ uses
use super::*;
use super::ieee::*;
use super::slab_sphere::*;
use super::geom_sphere::Sphere;
use super::{bounds::*, vector::*};
use core::ops::Sub;
//@ only SVec<N,D> as Intersects<Sphere<N,D>>
//@ rewrite Sub<Output = N> + Into<f64> ==> Sub<Output = N> + Into<f64> + Scalar
//@ rewrite fn intersects(&self, rhs: &Sphere<N, D>) ==> fn intersects_sphere(&self, rhs: &Sphere<N, D>)
//@ item SVec<N,D> as Intersects<Sphere<N,D>>
header <N, const D: usize> SVec<N, D> where N: Clone + Sub<Output = N> + Into<f64> + Scalar
//@ fn SVec<N,D> as Intersects<Sphere<N,D>>::intersects_sphere
    requires sphere_req(rhs, self)
    ensures res == in_sphere(rhs, self)
