//! NonZeroUsize is a trusted wrapper with its documented new and get; std::borrow::Borrow is a trait with the same method whose result is a function of the receiver
//! a mutable reference is determined by its current and its final value (mut_ref_ext)
//@ include geom.vs
//@ include fcvec.vs
//@ crate
pub mod ax {
    use super::*;
    /// A mutable reference is its current value and its final value.
    pub axiom fn mut_ref_ext<T>(a: &mut T, b: &mut T)
        requires *a == *b, *final(a) == *final(b)
        ensures a == b;
    /// A slice iterator that is dropped leaves the items it did not yield as they are.
    pub broadcast axiom fn iter_mut_resolved<'a, T>(it: core::slice::IterMut<'a, T>, i: int)
        requires 0 <= i < vstd::std_specs::iter::IteratorSpec::remaining(&it).len(),
        ensures #[trigger] has_resolved(it) ==> has_resolved(#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&it)[i]);
}

pub mod std_model {
    use super::*;
    use vstd::std_specs::iter::IteratorSpec;
    use core::mem::ManuallyDrop;

    #[derive(Clone, Copy)]
    pub struct NonZeroUsize { v: usize }
    impl NonZeroUsize {
        #[verifier::type_invariant]
        spec fn inv(&self) -> bool { self.v > 0 }
        pub closed spec fn view(&self) -> usize { self.v }
        pub fn new(v: usize) -> (r: Option<Self>)
            ensures v == 0 ==> r is None, v > 0 ==> r is Some && r->Some_0@ == v
        { if v == 0 { None } else { Some(NonZeroUsize { v }) } }
        pub fn get(&self) -> (r: usize)
            ensures r == self@, r >= 1
        { proof { use_type_invariant(self); } self.v }
    }

    /// panic!, unreachable!: must not be reached
    #[verifier::external_body]
    pub fn no_panic() -> !
        requires false
    { panic!() }

    #[verifier::external_body]
    pub fn md_mut<T>(m: &mut ManuallyDrop<T>) -> (r: &mut T)
        ensures *r == old(m)@, *final(r) == final(m)@
    { m }

    /// Iterator::min_by, reduced to: it is one of the items, the others are dropped
    #[verifier::loop_isolation(false)]
    pub fn min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> core::cmp::Ordering>(it: I, f: F) -> (r: Option<I::Item>)
        requires
            it.obeys_prophetic_iter_laws(), it.decrease() is Some,
            forall|i: int, j: int| 0 <= i < it.remaining().len() && 0 <= j < it.remaining().len() ==> call_requires(f, (&#[trigger] it.remaining()[i], &#[trigger] it.remaining()[j])),
        ensures
            it.will_return_none(),
            it.remaining().len() == 0 ==> r is None,
            it.remaining().len() > 0 ==> r is Some && exists|i: int| 0 <= i < it.remaining().len() && r->Some_0 == #[trigger] it.remaining()[i]
                && forall|j: int| 0 <= j < it.remaining().len() && j != i ==> has_resolved(#[trigger] it.remaining()[j]),
    {
        let ghost it0 = it;
        let ghost f0 = f;
        let mut it = it;
        let mut f = f;
        let ghost rest = it.remaining();
        let mut best: I::Item = match it.next() { None => { return None; } Some(x) => x };
        proof { assert(best == rest[0]); }
        let ghost mut n: int = 1;
        let ghost mut b: int = 0;
        loop
          invariant
            f == f0, it.decrease() is Some,
            it.obeys_prophetic_iter_laws(), it.decrease() is Some,
            it.will_return_none() == it0.will_return_none(),
            1 <= n <= rest.len(),
            it.remaining() == rest.skip(n),
            0 <= b < n, best == rest[b],
            forall|j: int| 0 <= j < n && j != b ==> has_resolved(#[trigger] rest[j]),
          decreases it.decrease()->Some_0
        {
            match it.next() {
                None => { return Some(best); }
                Some(x) => {
                    proof { assert(x == rest[n]);}
                    match f(&best, &x) {
                        core::cmp::Ordering::Greater => { best = x; proof { b = n; } }
                        _ => {}
                    }
                    proof { n = n + 1; }
                }
            }
        }
    }

    /// s.iter().map(f).enumerate().min_by_key(g), reduced to: an index in range and f of the item there
    #[verifier::loop_isolation(false)]
    pub fn map_enumerate_min_by_key<T, V, K: PartialOrd, F: FnMut(&T) -> V, G: FnMut(&(usize, V)) -> K>(s: &[T], f: F, g: G) -> (r: Option<(usize, V)>)
        requires
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: usize, v: V| #[trigger] call_requires(g, (&(i, v),)),
        ensures
            s@.len() == 0 ==> r is None,
            s@.len() > 0 ==> r is Some && r->Some_0.0 < s@.len() && call_ensures(f, (&s@[r->Some_0.0 as int],), r->Some_0.1),
    {
        let ghost f0 = f;
        let ghost g0 = g;
        let mut f = f;
        let mut g = g;
        if s.len() == 0 { return None; }
        let mut best: (usize, V) = (0, f(&s[0]));
        let mut key = g(&best);
        let mut i: usize = 1;
        while i < s.len()
            invariant f == f0, g == g0, 1 <= i <= s@.len(), best.0 < i, call_ensures(f, (&s@[best.0 as int],), best.1),
            decreases s.len() - i
        {
            let x = (i, f(&s[i]));
            let k = g(&x);
            if k < key { best = x; key = k; }
            i += 1;
        }
        Some(best)
    }

    /// it.find(|e| f(e)) over a slice: the first item f accepts; the others are left as they are
    #[verifier::loop_isolation(false)]
    pub fn find_mut<'a, T, F: FnMut(&T) -> bool>(it: core::slice::IterMut<'a, T>, f: F) -> (r: Option<&'a mut T>)
        requires it.decrease() is Some, forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (&*#[trigger] it.remaining()[i],)),
        ensures
            r is None ==> forall|i: int| 0 <= i < it.remaining().len() ==> call_ensures(f, (&*#[trigger] it.remaining()[i],), false) && has_resolved(it.remaining()[i]),
            r is Some ==> exists|i: int| 0 <= i < it.remaining().len() && r->Some_0 == #[trigger] it.remaining()[i] && call_ensures(f, (&*it.remaining()[i],), true)
                && (forall|j: int| 0 <= j < i ==> call_ensures(f, (&*#[trigger] it.remaining()[j],), false))
                && (forall|j: int| 0 <= j < it.remaining().len() && j != i ==> has_resolved(#[trigger] it.remaining()[j])),
    {
        broadcast use super::ax::iter_mut_resolved;
        let ghost f0 = f;
        let mut it = it;
        let mut f = f;
        let ghost rest = it.remaining();
        let ghost mut n: int = 0;
        loop
            invariant f == f0, it.decrease() is Some, 0 <= n <= rest.len(), it.remaining() == rest.skip(n),
                forall|j: int| 0 <= j < n ==> call_ensures(f, (&*#[trigger] rest[j],), false) && has_resolved(rest[j]),
            decreases it.decrease()->Some_0
        {
            match it.next() {
                None => { return None; }
                Some(x) => {
                    proof { assert(x == rest[n]); }
                    let ghost x0 = x;
                    let ghost it1 = it;
                    if f(&*x) {
                        proof {
                            assert(x0 == rest[n]);
                            assert(has_resolved(it1));
                            assert forall|j: int| n < j < rest.len() implies has_resolved(#[trigger] rest[j]) by {
                                assert(rest[j] == it1.remaining()[j - n - 1]);
                            }
                        }
                        let r: Option<&'a mut T> = Some(x);
                        proof { super::ax::mut_ref_ext(r->Some_0, x0); assert(r->Some_0 == rest[n]); assert(call_ensures(f0, (&*rest[n],), true));
                        assert(forall|j: int| 0 <= j < n ==> call_ensures(f, (&*#[trigger] rest[j],), false));
                assert(forall|j: int| 0 <= j < rest.len() && j != n ==> has_resolved(#[trigger] rest[j]));
                        }
                        return r;
                    }
                    proof { n = n + 1; }
                }
            }
        }
    }

    /// it.position(f): the first item f accepts
    #[verifier::loop_isolation(false)]
    pub fn position<'a, T, F: FnMut(&'a T) -> bool>(it: core::slice::Iter<'a, T>, f: F) -> (r: Option<usize>)
        requires it.decrease() is Some, forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
            it.remaining().len() <= usize::MAX,
        ensures
            r is None ==> forall|i: int| 0 <= i < it.remaining().len() ==> call_ensures(f, (#[trigger] it.remaining()[i],), false),
            r is Some ==> r->Some_0 < it.remaining().len() && call_ensures(f, (it.remaining()[r->Some_0 as int],), true)
                && forall|j: int| 0 <= j < r->Some_0 ==> call_ensures(f, (#[trigger] it.remaining()[j],), false),
    {
        let ghost f0 = f;
        let mut it = it;
        let mut f = f;
        let ghost rest = it.remaining();
        let mut n: usize = 0;
        loop
            invariant f == f0, it.decrease() is Some, 0 <= n <= rest.len(), it.remaining() == rest.skip(n as int),
                forall|j: int| 0 <= j < n ==> call_ensures(f, (#[trigger] rest[j],), false)
            decreases it.decrease()->Some_0
        {
            match it.next() {
                None => { return None; }
                Some(x) => {
                    proof { assert(x == rest[n as int]); }
                    if f(x) { return Some(n); }
                    n += 1;
                }
            }
        }
    }

    /// ptr::read(&p.f) of a part that is overwritten before it is used: the value moves out
    #[verifier::external_body]
    pub fn ptr_read<T>(m: &mut T) -> (r: T)
        ensures r == *old(m)
    { unimplemented!() }
    /// ptr::write
    #[verifier::external_body]
    pub fn ptr_write<T>(m: &mut T, v: T)
        ensures *final(m) == v
    { unimplemented!() }
    /// The level of a tree: one more than the levels of its nodes, which exist in memory, so it does not overflow.
    #[verifier::external_body]
    pub fn level_up(m: &mut usize)
        ensures *final(m) == *old(m) + 1
    { *m += 1; }

    pub assume_specification<T>[ core::mem::replace ](dest: &mut T, src: T) -> (r: T)
        ensures r == *old(dest), *final(dest) == src
    ;

    /// Iterators that, dropped, leave the items they did not yield as they are.
    pub uninterp spec fn drops_rest<I>() -> bool;
    pub broadcast axiom fn rest_resolved<I: Iterator>(it: I, i: int)
        requires drops_rest::<I>(), 0 <= i < it.remaining().len(), has_resolved(it)
        ensures #[trigger] has_resolved(it.remaining()[i]);

    /// std::iter::Filter
    #[verifier::external_body]
    #[verifier::reject_recursive_types(I)]
    #[verifier::reject_recursive_types(F)]
    pub struct Filtered<I, F> { it: I, f: F }
    #[verifier::prophetic]
    pub uninterp spec fn filtered_remaining<I: Iterator, F>(it: Filtered<I, F>) -> Seq<I::Item>;
    #[verifier::prophetic]
    pub uninterp spec fn filtered_done<I, F>(it: Filtered<I, F>) -> bool;
    pub uninterp spec fn filtered_decrease<I, F>(it: Filtered<I, F>) -> nat;
    impl<I: Iterator, F> Iterator for Filtered<I, F> {
        type Item = I::Item;
        #[verifier::external_body]
        fn next(&mut self) -> Option<I::Item> { unimplemented!() }
    }
    impl<I: Iterator, F> vstd::std_specs::iter::IteratorSpecImpl for Filtered<I, F> {
        open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
        #[verifier::prophetic]
        open spec fn remaining(&self) -> Seq<I::Item> { filtered_remaining(*self) }
        #[verifier::prophetic]
        open spec fn will_return_none(&self) -> bool { filtered_done(*self) }
        open spec fn decrease(&self) -> Option<nat> { Some(filtered_decrease(*self)) }
        open spec fn peek(&self, i: int) -> Option<I::Item> { None }
    }
    /// p are the positions in s of the items of t, those f accepts; it rejects the others, unless it stops (done is false) before it gets to them.
    #[verifier::prophetic]
    pub open spec fn picked<T, F: FnMut(&T) -> bool>(p: Seq<int>, s: Seq<T>, t: Seq<T>, f: F, done: bool) -> bool {
        &&& p.len() == t.len()
        &&& forall|j: int| #![trigger p[j]] #![trigger t[j]] 0 <= j < p.len() ==> 0 <= p[j] < s.len() && t[j] == s[p[j]] && call_ensures(f, (&s[p[j]],), true)
        &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> #[trigger] p[j] < #[trigger] p[k]
        &&& forall|i: int| 0 <= i < s.len() && !p.contains(i) ==> has_resolved(#[trigger] s[i])
        &&& done ==> forall|i: int| 0 <= i < s.len() && !p.contains(i) ==> call_ensures(f, (&#[trigger] s[i],), false)
    }
    /// it.filter(f): the items f accepts; f does not change them, and those it rejects are dropped
    #[verifier::external_body]
    pub fn filter<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> (r: Filtered<I, F>)
        requires
            it.obeys_prophetic_iter_laws(), it.decrease() is Some,
            forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (&#[trigger] it.remaining()[i],)),
        ensures
            exists|p: Seq<int>| #[trigger] picked(p, it.remaining(), r.remaining(), f, r.will_return_none()),
            drops_rest::<Filtered<I, F>>(), r.obeys_prophetic_iter_laws(),
    { unimplemented!() }

    pub fn slice_from<T>(s: &[T], a: usize) -> (r: &[T])
        requires a <= s@.len()
        ensures r@ == s@.skip(a as int)
    { &s[a..] }

    pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
        requires a < old(s)@.len(), b < old(s)@.len()
        ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int])
    ;
    pub fn slice_swap<T>(s: &mut [T], a: usize, b: usize)
        requires a < old(s)@.len(), b < old(s)@.len()
        ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int])
    { s.swap(a, b) }

    /// swap(&mut s[a], x)
    pub fn slice_swap_out<T>(s: &mut [T], a: usize, x: &mut T)
        requires a < old(s)@.len()
        ensures final(s)@ == old(s)@.update(a as int, *old(x)), *final(x) == old(s)@[a as int]
    { core::mem::swap(&mut s[a], x) }

    pub trait Borrow<Q: ?Sized> {
        spec fn borrow_spec(&self) -> &Q;
        fn borrow(&self) -> (r: &Q)
            ensures r == self.borrow_spec();
    }
    impl<T: ?Sized> Borrow<T> for T {
        open spec fn borrow_spec(&self) -> &T { self }
        fn borrow(&self) -> (r: &T) { self }
    }
}

//@ module laws
//@ text
use super::*;
use super::{bounds::{Bounds, Bounded}, contains::Contains, intersects::Intersects};
use vstd::std_specs::iter::IteratorSpec;

// ---- bounds

/// What the trees rely on from a bounds type (proved for AABB in geom).
pub open spec fn bounds_law<B: Bounds + Clone>() -> bool {
    &&& B::blaw() && <B as Contains<B>>::claw() && <B as Intersects<B>>::ilaw()
    &&& forall|a: B, x: B| #[trigger] B::up(a).contains(x) == B::inside(&a, &x)
    &&& forall|s: Seq<B>, x: B| #[trigger] B::up_all(s).contains(x) == forall|i: int| 0 <= i < s.len() ==> B::up(#[trigger] s[i]).contains(x)
    &&& forall|a: B| #[trigger] B::up(a).contains(a)
    &&& forall|a: B, b: B| #[trigger] <B as Contains<B>>::contains_spec(&a, &b) == B::up(b).contains(a)
    &&& forall|a: B, b: B| #[trigger] call_ensures(B::clone, (&a,), b) ==> B::up(a) == B::up(b)
    &&& forall|a: B| #[trigger] B::is_empty_bounds(&a) ==> B::up(a) == ISet::<B>::full()
}
/// ... from a key type: its bounds are determined
pub open spec fn key_law<B: Bounds, T: Bounded<B> + ?Sized>() -> bool {
    &&& T::bdlaw()
    &&& forall|t: &T, a: B, b: B| #[trigger] t.bounds_spec(&a) && #[trigger] t.bounds_spec(&b) ==> B::up(a) == B::up(b)
}
/// the bounds that contain t
pub open spec fn ub<B: Bounds, T: Bounded<B> + ?Sized>(t: &T) -> ISet<B> { ISet::new(|x: B| forall|b: B| #[trigger] t.bounds_spec(&b) ==> B::up(b).contains(x)) }
/// ... all of s
pub open spec fn ubs<B: Bounds, T: Bounded<B>>(s: Seq<T>) -> ISet<B> { ISet::new(|x: B| forall|i: int| 0 <= i < s.len() ==> ub::<B, T>(&#[trigger] s[i]).contains(x)) }

/// The bounds an item computes are contained in exactly the bounds that contain the item.
pub broadcast proof fn lemma_ub<B: Bounds, T: Bounded<B> + ?Sized>(t: &T, b: B)
    requires key_law::<B, T>(), #[trigger] t.bounds_spec(&b)
    ensures B::up(b) == ub::<B, T>(t)
{
    assert(B::up(b) =~= ub::<B, T>(t));
}

/// s is what f gives for the items
#[verifier::prophetic]
pub open spec fn map_of<B, I: Iterator, F: FnMut(I::Item) -> B>(it: I, f: F, s: Seq<B>) -> bool {
    s.len() == it.remaining().len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (it.remaining()[i],), #[trigger] s[i])
}
/// B::union_all(it.map(f))
pub fn union_all_map<B: Bounds, I: Iterator, F: FnMut(I::Item) -> B>(it: I, f: F) -> (res: B)
    requires
        it.obeys_prophetic_iter_laws(), it.decrease() is Some,
        forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
    ensures
        it.will_return_none(),
        exists|s: Seq<B>| #[trigger] map_of(it, f, s) && (B::blaw() ==> B::up(res) == B::up_all(s)),
{
    let m = it.map(f);
    let ghost m0 = m;
    let res = B::union_all(m);
    proof {
        vstd::std_specs::iter::map_postcondition(it, f, m0);
        let s: Seq<B> = IteratorSpec::remaining(&m0);
        assert(map_of(it, f, s));
        assert(B::blaw() ==> B::up(res) == B::up_all(s));
    }
    res
}

//@ module select from src/select.rs
//@ uses
use super::*;
use super::{bounds::{Bounds, Bounded, Volume}, noisy::N64, std_model::*, laws::*};
use core::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
//@ rewrite fn select<Value>( ==> fn select<Value, It: Iterator<Item = Value>>(
//@ rewrite children: impl IntoIterator<Item = Value> ==> children: It
//@ rewrite children.into_iter().min_by($f) ==> min_by(children, $f)
//@ fn Selector::select
    requires
        children.obeys_prophetic_iter_laws(), children.decrease() is Some,
        forall|i: int| 0 <= i < children.remaining().len() ==> (#[trigger] children.remaining()[i]).bounds_req(),
    ensures
        children.will_return_none(),
        children.remaining().len() == 0 ==> res is None,
        children.remaining().len() > 0 ==> res is Some && exists|i: int| 0 <= i < children.remaining().len() && res->Some_0 == #[trigger] children.remaining()[i]
            && forall|j: int| 0 <= j < children.remaining().len() && j != i ==> has_resolved(#[trigger] children.remaining()[j]),
//@ fn MinimalVolumeIncreaseSelector as Selector<B>::select
//@ closure 0 | lhs: &Value, rhs: &Value | -> (r: Ordering)
    requires lhs.bounds_req(), rhs.bounds_req()
//@ fn volume_increase_of_min_bounds

//@ module split from src/split.rs
//@ uses
use super::*;
use super::{bounds::{Bounds, Bounded, Volume}, noisy::N64, std_model::*, laws::*, fc_vec::{FCVecRefMut, FCVecContainer}};
use core::mem::swap;
use vstd::std_specs::iter::IteratorSpec;
//@ rewrite pub trait Splitter<B> ==> pub trait Splitter<B: Bounds>
//@ rewrite for (i, value) in values.iter().enumerate() { ==> for i in 0..values.len() { let value = &values[i];
//@ rewrite children.iter().map($f).enumerate().min_by_key($g) ==> map_enumerate_min_by_key(children, $f, $g)
//@ rewrite seed_split_groups(&mut values, overflow_value) ==> seed_split_groups(values.deref_mut(), overflow_value)
//@ rewrite (values[0].bounds(), group_2[0].bounds()) ==> (values.index(0).bounds(), group_2.deref()[0].bounds())
//@ rewrite &values[group_1_len..] ==> slice_from(values.deref(), group_1_len)
//@ fn worst_combination
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        values@.len() > 0, forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).bounds_req(), overflow_value.bounds_req(),
    ensures res.0 < res.1 <= values@.len()
//@ loop 0
            invariant
                forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).bounds_req(), overflow_value.bounds_req(),
                values@.len() > 0, idx_1 < values@.len(), idx_2 == values@.len()
//@ loop 1
            invariant
                forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).bounds_req(), overflow_value.bounds_req(),
                values@.len() > 0, idx_1 < idx_2 <= values@.len()
//@ loop 2
            invariant
                forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).bounds_req(), overflow_value.bounds_req(),
                values@.len() > 0, idx_1 < idx_2 <= values@.len(), i < values@.len() - 1
//@ fn seed_split_groups
    requires
        old(values)@.len() > 0, forall|i: int| 0 <= i < old(values)@.len() ==> (#[trigger] old(values)@[i]).bounds_req(), overflow_value.bounds_req(),
    ensures
        final(values)@.len() == old(values)@.len(),
        final(values)@.to_multiset().insert(res) == old(values)@.to_multiset().insert(overflow_value),
        forall|i: int| 0 <= i < final(values)@.len() ==> (#[trigger] final(values)@[i]).bounds_req(), res.bounds_req(),
//@ start
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let ghost v0 = values@;
        let ghost o0 = overflow_value;
//@ before if i_2
        proof { lemma_swap(v0, 0, i_1 as int); }
        let ghost v1 = values@;
//@ tail
        proof {
            assert(values@.to_multiset().insert(overflow_value) =~= v0.to_multiset().insert(o0));
        }
//@ rewrite swap(&mut values[i_2], &mut overflow_value) ==> slice_swap_out(values, i_2, &mut overflow_value)
//@ rewrite values.swap(0, i_1) ==> slice_swap(values, 0, i_1)
//@ fn best_candidate_for_group
    requires forall|i: int| 0 <= i < children@.len() ==> (#[trigger] children@[i]).bounds_req()
    ensures children@.len() == 0 ==> res is None, children@.len() > 0 ==> res is Some && res->Some_0.0 < children@.len()
//@ closure 0 | value: &Value | -> (r: N64)
    requires value.bounds_req()
//@ closure 1 | p: &(usize, N64) | -> (r: N64)
//@ fn Splitter::split
    requires
        values.wf(), values@.len() == values.ops.cap, min_children >= 1, values.ops.cap >= 2 * min_children,
        forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).bounds_req(), overflow_value.bounds_req(),
    ensures
        final(values.data).wf(), final(values.data).cap() == values.ops.cap,
        res.2.wf(), res.2.ops == values.ops,
        min_children <= final(values.data)@.len() <= values.ops.cap, min_children <= res.2@.len() <= values.ops.cap,
        final(values.data)@.to_multiset().add(res.2@.to_multiset()) == values@.to_multiset().insert(overflow_value),
        B::blaw() && key_law::<B, Value>() ==> B::up(res.0) == ubs::<B, Value>(final(values.data)@) && B::up(res.1) == ubs::<B, Value>(res.2@),
//@ fn QuadraticSplitter as Splitter<B>::split
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
//@ start
        broadcast use {vstd::seq_lib::group_to_multiset_ensures, lemma_ub, lemma_ubs_push, vstd::seq::group_seq_axioms};
        let ghost v0 = values@;
        let ghost vs0 = values;
        let ghost law = B::blaw() && key_law::<B, Value>();
//@ before let (mut bounds_1
        proof {
            assert(values@.to_multiset().add(group_2@.to_multiset()) =~= v0.to_multiset().insert(overflow_value)) by {
                assert(group_2@ =~= Seq::<Value>::empty().push(group_2@[0]));
            }
        }
//@ before let mut group_1_len
        proof {
            lemma_ubs_one::<B, Value>(values@.take(1));
            lemma_ubs_one::<B, Value>(group_2@);
        }
//@ loop 0
            invariant
                law == (B::blaw() && key_law::<B, Value>()),
                values.wf(), values.same_target(&vs0),
                group_2.wf(), group_2.ops == values.ops,
                1 <= group_1_len <= values@.len(), group_2@.len() >= 1, values@.len() + group_2@.len() == values.ops.cap + 1,
                min_children >= 1, values.ops.cap >= 2 * min_children,
                values@.len() >= min_children + 1, group_2@.len() + values@.len() - group_1_len >= min_children,
                values@.to_multiset().add(group_2@.to_multiset()) == v0.to_multiset().insert(overflow_value),
                forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).bounds_req(),
                forall|i: int| 0 <= i < group_2@.len() ==> (#[trigger] group_2@[i]).bounds_req(),
                law ==> B::up(bounds_1) == ubs::<B, Value>(values@.take(group_1_len as int)),
                law ==> B::up(bounds_2) == ubs::<B, Value>(group_2@),
            decreases values@.len() - group_1_len
//@ loopstart 0
            broadcast use {vstd::seq_lib::group_to_multiset_ensures, lemma_ub, lemma_ubs_push, vstd::seq::group_seq_axioms};
            let ghost v1 = values@;
            let ghost g1 = group_1_len as int;
            let ghost w1 = group_2@;
//@ loopend 0
            proof {
                if add_to_group_1 {
                    let x = v1[g1 + candidate_1.0];
                    lemma_swap(v1, g1 + candidate_1.0, g1);
                    assert(values@.take(g1 + 1) =~= v1.take(g1).push(x));
                    assert(law ==> B::up(bounds_1) == ubs::<B, Value>(v1.take(g1)).intersect(ub::<B, Value>(&x)));
                } else {
                    let x = v1[g1 + candidate_2.0];
                    lemma_swap_remove(v1, g1 + candidate_2.0);
                    assert(values@.take(g1) =~= v1.take(g1));
                    assert(group_2@ == w1.push(x));
                    assert(law ==> B::up(bounds_2) == ubs::<B, Value>(w1).intersect(ub::<B, Value>(&x)));
                    assert(law ==> ubs::<B, Value>(w1.push(x)) == ubs::<B, Value>(w1).intersect(ub::<B, Value>(&x)));
                    assert(group_2@.to_multiset() == w1.to_multiset().insert(x));
                    assert(values@.to_multiset().add(group_2@.to_multiset()) =~= v1.to_multiset().add(w1.to_multiset()));
                }
            }
//@ tail
        proof { assert(values@.take(group_1_len as int) =~= values@); }
//@ text
/// An item more.
pub broadcast proof fn lemma_ubs_push<B: Bounds, T: Bounded<B>>(s: Seq<T>, t: T)
    ensures #[trigger] ubs::<B, T>(s.push(t)) == ubs::<B, T>(s).intersect(ub::<B, T>(&t))
{
    let a = ubs::<B, T>(s.push(t));
    let b = ubs::<B, T>(s).intersect(ub::<B, T>(&t));
    assert forall|x: B| a.contains(x) == b.contains(x) by {
        if a.contains(x) {
            assert forall|i: int| 0 <= i < s.len() implies ub::<B, T>(&#[trigger] s[i]).contains(x) by { assert(s.push(t)[i] == s[i]); }
            assert(s.push(t)[s.len() as int] == t);
        }
    }
    assert(a =~= b);
}
pub proof fn lemma_ubs_one<B: Bounds, T: Bounded<B>>(s: Seq<T>)
    requires s.len() == 1
    ensures ubs::<B, T>(s) == ub::<B, T>(&s[0])
{
    assert(ubs::<B, T>(s) =~= ub::<B, T>(&s[0])) by {
        assert forall|x: B| ubs::<B, T>(s).contains(x) == ub::<B, T>(&s[0]).contains(x) by {}
    }
}

pub proof fn lemma_swap<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len()
    ensures s.update(a, s[b]).update(b, s[a]).to_multiset() == s.to_multiset()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a != b {
        let t = s.update(a, s[b]);
        assert(t[a] == s[b] && t[b] == s[b] && t.len() == s.len());
        assert(s.contains(s[a]) && s.contains(s[b]) && t.contains(s[b]));
        assert(t.to_multiset() =~= s.to_multiset().insert(s[b]).remove(s[a]));
        assert(t.update(b, s[a]).to_multiset() =~= t.to_multiset().insert(s[a]).remove(s[b]));
        assert(t.update(b, s[a]).to_multiset() =~= s.to_multiset());
    } else {
        assert(s.update(a, s[b]).update(b, s[a]) =~= s);
    }
}
/// update(i, last).drop_last() is a permutation of remove(i)
pub proof fn lemma_swap_remove<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures
        s.update(i, s.last()).drop_last().to_multiset().insert(s[i]) == s.to_multiset(),
        s.update(i, s.last()).drop_last().to_multiset() == s.to_multiset().remove(s[i]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = s.update(i, s.last()).drop_last();
    assert(t.push(s[i]) =~= s.update(i, s[s.len() - 1]).update(s.len() - 1, s[i]));
    lemma_swap(s, i, s.len() - 1);
    assert(t.push(s[i]).to_multiset() == t.to_multiset().insert(s[i]));
    assert(t.to_multiset() =~= s.to_multiset().remove(s[i]));
}
