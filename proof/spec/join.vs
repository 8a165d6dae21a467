//! Iterator::find over a product takes the next pair the predicate accepts
//@ include iter.vs
//@ module join from src/join.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::JoinFilter, node::*, iter_stack::*, iter::mapped, util::empty_slice};
use core::marker::PhantomData;
use core::slice;
use core::cmp;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
//@ drop tests
//@ rewrite Box<JoinIterStack<'a, 'b, B0, B1, Key0, Key1, Value0, Value1>> ==> JoinIterStack<'a, 'b, B0, B1, Key0, Key1, Value0, Value1>
//@ rewrite fn next(&mut self) -> Option<Self::Item> ==> fn next_item(&mut self) -> Option<Self::Item>
//@ rewrite self.stack[$i].find(|($p)| $e) ==> { let me = Sight { filter: &self.filter, padding0: self.padding0, padding1: self.padding1 }; find_pair(self.stack.index_mut($i), |$p| $e~me) }
//@ rewrite self.stack.leaf_mut().find(|($p)| $e) ==> { let me = Sight { filter: &self.filter, padding0: self.padding0, padding1: self.padding1 }; find_pair(self.stack.leaf_mut(), |$p| $e~me) }
//@ rewrite self.stack[$i] = ==> *self.stack.index_mut($i) =
//@ rewrite children.vec() ==> children.vec().deref()
//@ rewrite slice::from_ref($e) ==> from_ref($e)
//@ rewrite &self.1[1..] ==> rest_of(self.1)
//@ rewrite cmp::max($a, $b) ==> max($a, $b)
//@ rewrite cmp::min($a, $b) ==> min($a, $b)
//@ rewrite (0..$e).map($f) ==> mapped(0..$e, $f)
//@ item ProductIter<'a,'b,T0,T1> as Iterator
header <'a, 'b, T0, T1> Pairs for ProductIter<'a, 'b, T0, T1>
//@ item JoinIter<'a,'b,B0,B1,Key0,Key1,Value0,Value1,Q0,Q1,Filter> as Iterator
header <'a, 'b, B0, B1, Key0: Borrow<Q0>, Key1: Borrow<Q1>, Value0, Value1, Q0: ?Sized, Q1: ?Sized, Filter: JoinFilter<B0, B1, Q0, Q1>> Pairs for JoinIter<'a, 'b, B0, B1, Key0, Key1, Value0, Value1, Q0, Q1, Filter>
//@ item JoinIter
attr #[verifier::reject_recursive_types(B0)]
attr #[verifier::reject_recursive_types(B1)]
attr #[verifier::reject_recursive_types(Key0)]
attr #[verifier::reject_recursive_types(Key1)]
attr #[verifier::reject_recursive_types(Value0)]
attr #[verifier::reject_recursive_types(Value1)]
attr #[verifier::reject_recursive_types(Q0)]
attr #[verifier::reject_recursive_types(Q1)]
attr #[verifier::reject_recursive_types(Filter)]
//@ fn RewindableIter::new
    ensures res.slice == slice, res.i == 0
//@ fn RewindableIter::get
    ensures self.i < self.slice@.len() ==> res is Some && *res->Some_0 == self.slice@[self.i as int], self.i >= self.slice@.len() ==> res is None
//@ fn RewindableIter::advance
    requires old(self).i < old(self).slice@.len()
    ensures
        final(self).slice == old(self).slice,
        res == (old(self).i + 1 >= old(self).slice@.len()), final(self).i == if res { 0 } else { old(self).i + 1 },
//@ start
        proof { assert(self.slice.len() == self.slice@.len()); }
//@ fn ProductIter::new
    ensures res.inv(), res.left() == prod(slice0@, slice1@)
//@ in ProductIter<'a,'b,T0,T1> as Iterator
    open spec fn inv(&self) -> bool { self.0.i < self.0.slice@.len() || self.0.i == 0 }
//@ fn ProductIter<'a,'b,T0,T1> as Iterator::next_item
    ensures
        res is None ==> old(self).left().len() == 0 && final(self).left().len() == 0,
        res is Some ==> old(self).left() == seq![(*res->Some_0.0, *res->Some_0.1)] + final(self).left(),
//@ before return Some((item0, item1));
                proof { lemma_rest(old(self).0.slice@, old(self).0.i as int, old(self).1@); }
//@ in JoinIter<'a,'b,B0,B1,Key0,Key1,Value0,Value1,Q0,Q1,Filter> as Iterator
    open spec fn inv(&self) -> bool { self.wf() }
//@ fn JoinIter::start_join
    requires
        stack_of(old(self).stack@), node0.level < old(self).stack@.len(), node1.level < old(self).stack@.len(),
        kind(node0.node.children, node0.level as nat), kind(node1.node.children, node1.level as nat),
        fitted(node0.node.children, node0.level as nat), fitted(node1.node.children, node1.level as nat),
    ensures
        final(self).filter == old(self).filter, final(self).padding0 == old(self).padding0, final(self).padding1 == old(self).padding1,
        joined(old(self).stack@, final(self).stack@, *node0.node, node0.level as nat, *node1.node, node1.level as nat),
//@ fn JoinIter::new
    requires
        filter.jlaw(), clen(root0.node.children, root0.level as nat) > 0 && clen(root1.node.children, root1.level as nat) > 0 ==> jpair(jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(filter), *root0.node, root0.level as nat, *root1.node, root1.level as nat),
        fitted(root0.node.children, root0.level as nat), fitted(root1.node.children, root1.level as nat),
    ensures res.wf(), res.filter == filter, res.left() == jm(jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(filter), flat(root0.node.children, root0.level as nat), flat(root1.node.children, root1.level as nat))
//@ before return Self { stack: IterStack::empty_box(), $e };
            proof {
                let j = jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(filter);
                let (a, la, b, lb) = (*root0.node, root0.level as nat, *root1.node, root1.level as nat);
                lemma_jnothing(j, a, la, b, lb);
            }
//@ before iter.start_join(root0, root1);
        let ghost s = iter.stack@;
//@ after iter.start_join(root0, root1);
        proof {
            let j = jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(iter.filter);
            lemma_jfresh(j, s, iter.stack@, *root0.node, root0.level as nat, *root1.node, root1.level as nat, iter.padding0 as nat, iter.padding1 as nat);
        }
//@ closure 0 | _i: usize | -> (r: ProductIter<'a, 'b, Node<B0, Key0, Value0>, Node<B1, Key1, Value1>>)
    ensures r.inv(), r.left().len() == 0
//@ fn JoinIter<'a,'b,B0,B1,Key0,Key1,Value0,Value1,Q0,Q1,Filter> as Iterator::next_item
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    ensures
        final(self).filter == old(self).filter,
        res is None ==> old(self).left() == Multiset::<((Key0, Value0), (Key1, Value1))>::empty() && final(self).left() == Multiset::<((Key0, Value0), (Key1, Value1))>::empty(),
        res is Some ==> old(self).left() == final(self).left().insert((*res->Some_0.0, *res->Some_0.1)),
//@ start
        let ghost j = jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(self.filter);
        let ghost (p0, p1) = (self.padding0 as nat, self.padding1 as nat);
        let ghost s0 = self.stack@;
//@ loop 0
            invariant
                j == jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(self.filter), self.filter == old(self).filter, s0 == old(self).stack@, p0 == self.padding0, p1 == self.padding1, old(self).padding0 == p0, old(self).padding1 == p1,
                self.wf(), level <= self.stack@.len() == s0.len(), jbelow(j, self.stack@, p0, p1, level as nat) == Multiset::<((Key0, Value0), (Key1, Value1))>::empty(),
                jbelow(j, self.stack@, p0, p1, s0.len()) == jbelow(j, s0, p0, p1, s0.len()),
            ensures level == self.stack@.len()
            decreases jwb(self.stack@, p0, p1, self.stack@.len()), self.stack@.len() - level
//@ loopstart 0
            let ghost s1 = self.stack@;
            let ghost ll = level as int;
//@ before level -= 1;
                    let ghost s2 = self.stack@;
                    let ghost k = jpairs(s1, ll).len() - jpairs(s2, ll).len() - 1;
                    proof {
                        lemma_fitted_kind(node0.children, lv(ll, p0)); lemma_fitted_kind(node1.children, lv(ll, p1));
                        assert(jpair(j, jpairs(s1, ll)[k].0, lv(ll, p0), jpairs(s1, ll)[k].1, lv(ll, p1)));
                    }
//@ after self.start_join($e);
                        proof { lemma_jdescend(j, s1, s2, self.stack@, ll, k, p0, p1); }
//@ before #1 level += 1;
                    proof { lemma_jpassed(j, s1, self.stack@, ll, p0, p1); }
//@ before #2 level += 1;
                proof { lemma_jleaf(j, s1, self.stack@, p0, p1); }
//@ before return Some((node0, node1));
                proof { lemma_jtaken(j, s1, self.stack@, (*node0, *node1), p0, p1); }
//@ closure 0 | node0: &'a Node<B0, Key0, Value0>, node1: &'b Node<B1, Key1, Value1> | -> (r: bool)
//%permit     ensures r == (j.bok)(node0.bounds, node1.bounds)
//%!permit     ensures (j.bok)(node0.bounds, node1.bounds) ==> r
//@ closure 1 | entry0: &'a (Key0, Value0), entry1: &'b (Key1, Value1) | -> (r: bool)
//%permit     requires (j.may)(entry0.0, entry1.0)
    ensures r == (j.ok)(entry0.0, entry1.0)
//@ endfn
//@ text
/// Iterator, with an invariant
pub trait Pairs {
    type Item;
    spec fn inv(&self) -> bool;
    fn next_item(&mut self) -> (res: Option<Self::Item>)
        requires old(self).inv()
        ensures final(self).inv();
}
/// cmp::max
fn max(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a } else { b }
{ if a >= b { a } else { b } }
/// cmp::min
fn min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ if a <= b { a } else { b } }
/// slice::from_ref
#[verifier::external_body]
pub fn from_ref<T>(x: &T) -> (r: &[T])
    ensures r@ == seq![*x]
{ core::slice::from_ref(x) }
/// &s[1..]
pub fn rest_of<T>(s: &[T]) -> (r: &[T])
    requires s@.len() > 0
    ensures r@ == s@.skip(1)
{ &s[1..] }
/// the pairs of items of s with x
pub open spec fn row<S, T>(s: Seq<S>, x: T) -> Seq<(S, T)> { Seq::new(s.len(), |i: int| (s[i], x)) }
/// the pairs of items of s and t, from the i-th of s on
pub open spec fn rest<S, T>(s: Seq<S>, i: int, t: Seq<T>) -> Seq<(S, T)>
    decreases t.len()
{
    if s.len() == 0 || t.len() == 0 { Seq::empty() } else { row(s.skip(i), t[0]) + rest(s, 0, t.skip(1)) }
}
pub open spec fn prod<S, T>(s: Seq<S>, t: Seq<T>) -> Seq<(S, T)> { rest(s, 0, t) }
pub proof fn lemma_rest<S, T>(s: Seq<S>, i: int, t: Seq<T>)
    requires 0 <= i < s.len(), t.len() > 0
    ensures rest(s, i, t) == seq![(s[i], t[0])] + if i + 1 < s.len() { rest(s, i + 1, t) } else { rest(s, 0, t.skip(1)) }
{
    assert(row(s.skip(i), t[0]) =~= seq![(s[i], t[0])] + row(s.skip(i + 1), t[0]));
    assert(rest(s, i, t) =~= seq![(s[i], t[0])] + (row(s.skip(i + 1), t[0]) + rest(s, 0, t.skip(1))));
    if i + 1 >= s.len() { assert(row(s.skip(i + 1), t[0]) =~= Seq::empty()); assert(row(s.skip(i + 1), t[0]) + rest(s, 0, t.skip(1)) =~= rest(s, 0, t.skip(1))); }
}
impl<'a, 'b, T0, T1> ProductIter<'a, 'b, T0, T1> {
    /// the pairs to come
    pub open spec fn left(&self) -> Seq<(T0, T1)> { rest(self.0.slice@, self.0.i as int, self.1@) }
}
/// what a closure of a search sees of self (the search borrows the stack)
pub struct Sight<'f, F> { pub filter: &'f F, pub padding0: usize, pub padding1: usize }
/// it.find(f): the next pair f accepts
fn find_pair<'a, 'b, T0, T1, F: FnMut(&'a T0, &'b T1) -> bool>(it: &mut ProductIter<'a, 'b, T0, T1>, f: F) -> (r: Option<(&'a T0, &'b T1)>)
    requires old(it).inv(), forall|i: int| 0 <= i < old(it).left().len() ==> call_requires(f, (&(#[trigger] old(it).left()[i]).0, &old(it).left()[i].1))
    ensures
        final(it).inv(), r is None ==> final(it).left().len() == 0 && refused(f, old(it).left(), old(it).left().len() as int),
        r is Some ==> ({
            let k = old(it).left().len() - final(it).left().len() - 1;
            0 <= k && old(it).left()[k] == (*r->Some_0.0, *r->Some_0.1) && final(it).left() =~= old(it).left().skip(k + 1) && call_ensures(f, (r->Some_0.0, r->Some_0.1), true) && refused(f, old(it).left(), k)
        }),
{
    let mut g = f;
    let ghost all = it.left();
    let ghost mut k = 0int;
    loop
        invariant
            g == f, it.inv(), 0 <= k <= all.len(), it.left() =~= all.skip(k), refused(f, all, k), forall|i: int| 0 <= i < all.len() ==> call_requires(f, (&(#[trigger] all[i]).0, &all[i].1)), all == old(it).left(),
        decreases all.len() - k
    {
        let ghost l0 = it.left();
        match it.next_item() {
            None => { return None; }
            Some((x, y)) => {
                proof { assert(l0[0] == (*x, *y)); assert(it.left() =~= l0.skip(1)); assert(it.left() =~= all.skip(k + 1)); assert((*x, *y) == all[k]); }
                if g(x, y) { return Some((x, y)); }
                proof { k = k + 1; }
            }
        }
    }
}
/// f rejects the first k pairs
pub open spec fn refused<'a, 'b, T0: 'a, T1: 'b, F: FnMut(&'a T0, &'b T1) -> bool>(f: F, s: Seq<(T0, T1)>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> call_ensures(f, (&(#[trigger] s[i]).0, &s[i].1), false)
}

/// A join filter: the pairs of keys it accepts, the pairs of bounds it accepts, and the pairs of keys it may be asked about.
#[verifier::reject_recursive_types(B0)]
#[verifier::reject_recursive_types(B1)]
#[verifier::reject_recursive_types(K0)]
#[verifier::reject_recursive_types(K1)]
pub ghost struct Jf<B0, B1, K0, K1> { pub ok: spec_fn(K0, K1) -> bool, pub bok: spec_fn(B0, B1) -> bool, pub may: spec_fn(K0, K1) -> bool }
pub open spec fn jf<B0, B1, K0: Borrow<Q0>, K1: Borrow<Q1>, Q0: ?Sized, Q1: ?Sized, F: JoinFilter<B0, B1, Q0, Q1>>(f: F) -> Jf<B0, B1, K0, K1> {
    Jf { ok: |a: K0, b: K1| f.pair_ok(a.borrow_spec(), b.borrow_spec()), bok: |a: B0, b: B1| f.bounds_pair_ok(&a, &b), may: |a: K0, b: K1| f.may_pair(a.borrow_spec(), b.borrow_spec()) }
}
pub type Jp<K0, V0, K1, V1> = ((K0, V0), (K1, V1));
/// the pairs it accepts
pub open spec fn js<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Jp<K0, V0, K1, V1>>) -> Multiset<Jp<K0, V0, K1, V1>> { s.filter(|p: Jp<K0, V0, K1, V1>| (j.ok)(p.0.0, p.1.0)).to_multiset() }
/// the pairs of entries of s and t it accepts
pub open spec fn jm<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<(K0, V0)>, t: Seq<(K1, V1)>) -> Multiset<Jp<K0, V0, K1, V1>> { js(j, prod(s, t)) }
pub open spec fn fitted<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> bool { exists|cap: nat| #[trigger] fits(c, l, cap) }
/// what a node at level l is joined as: its children, or itself
pub open spec fn kids<B, K, V>(n: Node<B, K, V>, l: nat) -> Seq<Node<B, K, V>> { if l == 0 { seq![n] } else { inner(n.children)@ } }
pub open spec fn dn(l: nat) -> nat { if l == 0 { 0 } else { (l - 1) as nat } }
/// It rejects no bounds of nodes with a pair it accepts.
pub open spec fn jkeeps<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat) -> bool
    decreases la + lb
{
    &&& jm(j, flat(a.children, la), flat(b.children, lb)).len() > 0 ==> (j.bok)(a.bounds, b.bounds)
    &&& la + lb > 0 ==> forall|i: int, k: int| #![trigger kids(a, la)[i], kids(b, lb)[k]] 0 <= i < kids(a, la).len() && 0 <= k < kids(b, lb).len() ==> jkeeps(j, kids(a, la)[i], dn(la), kids(b, lb)[k], dn(lb))
}
pub open spec fn jpair<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat) -> bool {
    fitted(a.children, la) && fitted(b.children, lb) && jkeeps(j, a, la, b, lb) && jpermits(j, a, la, b, lb)
}
/// C17: if j accepts the bounds of the two nodes, and of all pairs of nodes on the way to a pair of entries below them, the pair may be tested
pub open spec fn jpermits<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat) -> bool
//%!permit { true }
//%permit     decreases la + lb, 1nat
//%permit { (j.bok)(a.bounds, b.bounds) ==> jpermits_in(j, a, la, b, lb) }
/// ... of what they are joined as
pub open spec fn jpermits_in<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat) -> bool
//%!permit { true }
//%permit     decreases la + lb, 0nat
//%permit {
//%permit     if la + lb == 0 { forall|i: int, k: int| #![trigger leaf(a.children)@[i], leaf(b.children)@[k]] 0 <= i < leaf(a.children)@.len() && 0 <= k < leaf(b.children)@.len() ==> (j.may)(leaf(a.children)@[i].0, leaf(b.children)@[k].0) }
//%permit     else { forall|i: int, k: int| #![trigger kids(a, la)[i], kids(b, lb)[k]] 0 <= i < kids(a, la).len() && 0 <= k < kids(b, lb).len() ==> jpermits(j, kids(a, la)[i], dn(la), kids(b, lb)[k], dn(lb)) }
//%permit }
/// the pairs may be tested
pub open spec fn jmay_all<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Jp<K0, V0, K1, V1>>) -> bool {
//%!permit     true
//%permit     forall|i: int| 0 <= i < s.len() ==> (j.may)((#[trigger] s[i]).0.0, s[i].1.0)
}
/// once their bounds are accepted
pub proof fn lemma_jmay<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat)
    requires jpermits_in(j, a, la, b, lb)
    ensures
        la + lb == 0 ==> jmay_all(j, prod(leaf(a.children)@, leaf(b.children)@)),
        la + lb > 0 ==> forall|i: int| 0 <= i < prod(kids(a, la), kids(b, lb)).len() ==> jpermits(j, (#[trigger] prod(kids(a, la), kids(b, lb))[i]).0, dn(la), prod(kids(a, la), kids(b, lb))[i].1, dn(lb)),
{
//%permit     if la + lb == 0 {
//%permit         let (s, t) = (leaf(a.children)@, leaf(b.children)@);
//%permit         assert forall|i: int| 0 <= i < prod(s, t).len() implies (j.may)((#[trigger] prod(s, t)[i]).0.0, prod(s, t)[i].1.0) by { let (y, z) = lemma_prod_in(s, t, i); assert(s[y] == prod(s, t)[i].0 && t[z] == prod(s, t)[i].1); }
//%permit     } else {
//%permit         let (s, t) = (kids(a, la), kids(b, lb));
//%permit         assert forall|i: int| 0 <= i < prod(s, t).len() implies jpermits(j, (#[trigger] prod(s, t)[i]).0, dn(la), prod(s, t)[i].1, dn(lb)) by { let (y, z) = lemma_prod_in(s, t, i); assert(s[y] == prod(s, t)[i].0 && t[z] == prod(s, t)[i].1); }
//%permit     }
}
pub type Js<'a, 'b, B0, B1, K0, K1, V0, V1> = Seq<Entry<ProductIter<'a, 'b, (K0, V0), (K1, V1)>, ProductIter<'a, 'b, Node<B0, K0, V0>, Node<B1, K1, V1>>>>;
pub open spec fn jpairs<'a, 'b, B0, B1, K0, K1, V0, V1>(s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, l: int) -> Seq<(Node<B0, K0, V0>, Node<B1, K1, V1>)> { inn(s[l]).left() }
pub open spec fn jleaf<'a, 'b, B0, B1, K0, K1, V0, V1>(s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>) -> Seq<Jp<K0, V0, K1, V1>> { lf(s[0]).left() }
/// the level of the nodes at index l of the stack, of the tree with padding p
pub open spec fn lv(l: int, p: nat) -> nat { if l - 1 >= p { (l - 1 - p) as nat } else { 0 } }
/// the accepted pairs below pairs of nodes
pub open spec fn jsum<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<(Node<B0, K0, V0>, Node<B1, K1, V1>)>, la: nat, lb: nat) -> Multiset<Jp<K0, V0, K1, V1>>
    decreases s.len()
{
    if s.len() == 0 { Multiset::empty() } else { jm(j, flat(s[0].0.children, la), flat(s[0].1.children, lb)).add(jsum(j, s.skip(1), la, lb)) }
}
/// ... at indices below n
pub open spec fn jbelow<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat, n: nat) -> Multiset<Jp<K0, V0, K1, V1>>
    decreases n
{
    if n == 0 { Multiset::empty() } else if n == 1 { js(j, jleaf(s)) } else { jbelow(j, s, p0, p1, (n - 1) as nat).add(jsum(j, jpairs(s, n - 1), lv(n - 1, p0), lv(n - 1, p1))) }
}
// ---- weight: what is left to look at
pub open spec fn jw<B0, B1, K0, K1, V0, V1>(a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat) -> nat
    decreases la + lb, 0nat
{
    if la + lb == 0 { 1 } else { 1 + jws(prod(kids(a, la), kids(b, lb)), dn(la), dn(lb)) }
}
pub open spec fn jws<B0, B1, K0, K1, V0, V1>(s: Seq<(Node<B0, K0, V0>, Node<B1, K1, V1>)>, la: nat, lb: nat) -> nat
    decreases la + lb, 1 + s.len()
{
    if s.len() == 0 { 0 } else { jw(s[0].0, la, s[0].1, lb) + jws(s.skip(1), la, lb) }
}
pub open spec fn jwb<'a, 'b, B0, B1, K0, K1, V0, V1>(s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat, n: nat) -> nat
    decreases n
{
    if n <= 1 { 0 } else { jwb(s, p0, p1, (n - 1) as nat) + jws(jpairs(s, n - 1), lv(n - 1, p0), lv(n - 1, p1)) }
}
/// t is s with the join of a and b started
pub open spec fn joined<'a, 'b, B0, B1, K0, K1, V0, V1>(s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, t: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat) -> bool {
    let m = if la >= lb { la as int } else { lb as int };
    if m == 0 { put_leaf(s, t, lf(t[0])) && lf(t[0]).inv() && jleaf(t) == prod(leaf(a.children)@, leaf(b.children)@) }
    else { put_inner(s, t, m, inn(t[m])) && inn(t[m]).inv() && jpairs(t, m) == prod(kids(a, la), kids(b, lb)) }
}
/// the products and the pairs of nodes in them are well-formed
pub open spec fn jgood<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat) -> bool {
    &&& stack_of(s) && (s.len() > 0 ==> lf(s[0]).inv()) && forall|l: int| 1 <= l < s.len() ==> inn(#[trigger] s[l]).inv()
    &&& forall|l: int, i: int| 1 <= l < s.len() && 0 <= i < jpairs(s, l).len() ==> jpair(j, (#[trigger] jpairs(s, l)[i]).0, lv(l, p0), jpairs(s, l)[i].1, lv(l, p1))
    &&& s.len() > 0 ==> jmay_all(j, jleaf(s))
}
impl<'a, 'b, B0, B1, Key0: Borrow<Q0>, Key1: Borrow<Q1>, Value0, Value1, Q0: ?Sized, Q1: ?Sized, Filter: JoinFilter<B0, B1, Q0, Q1>> JoinIter<'a, 'b, B0, B1, Key0, Key1, Value0, Value1, Q0, Q1, Filter> {
    pub open spec fn wf(&self) -> bool {
        self.filter.jlaw() && (self.padding0 == 0 || self.padding1 == 0) && jgood(jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(self.filter), self.stack@, self.padding0 as nat, self.padding1 as nat)
    }
    /// the pairs to come
    pub open spec fn left(&self) -> Multiset<Jp<Key0, Value0, Key1, Value1>> {
        jbelow(jf::<B0, B1, Key0, Key1, Q0, Q1, Filter>(self.filter), self.stack@, self.padding0 as nat, self.padding1 as nat, self.stack@.len())
    }
}

pub proof fn lemma_fitted_kind<B, K, V>(c: NodeChildren<B, K, V>, l: nat)
    ensures fitted(c, l) ==> kind(c, l)
{
    if fitted(c, l) { let cap = choose|cap: nat| #[trigger] fits(c, l, cap); }
}
// ---- selection
pub proof fn lemma_js_add<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Jp<K0, V0, K1, V1>>, t: Seq<Jp<K0, V0, K1, V1>>)
    ensures js(j, s + t) == js(j, s).add(js(j, t))
{
    let f = |p: Jp<K0, V0, K1, V1>| (j.ok)(p.0.0, p.1.0);
    Seq::filter_distributes_over_add(s, t, f);
    vstd::seq_lib::lemma_multiset_commutative(s.filter(f), t.filter(f));
}
pub proof fn lemma_js_none<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Jp<K0, V0, K1, V1>>)
    requires forall|i: int| 0 <= i < s.len() ==> !(j.ok)((#[trigger] s[i]).0.0, s[i].1.0)
    ensures js(j, s) == Multiset::<Jp<K0, V0, K1, V1>>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let f = |p: Jp<K0, V0, K1, V1>| (j.ok)(p.0.0, p.1.0);
    if s.len() > 0 {
        assert(!(j.ok)(s[s.len() - 1].0.0, s[s.len() - 1].1.0));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !(j.ok)((#[trigger] s.drop_last()[i]).0.0, s.drop_last()[i].1.0) by { assert(!(j.ok)(s[i].0.0, s[i].1.0)); }
        lemma_js_none(j, s.drop_last());
    }
    if s.len() == 0 { assert(s.filter(f) =~= Seq::empty()); } else { assert(s.filter(f) =~= s.drop_last().filter(f)); }
    assert(js(j, s) =~= Multiset::empty());
}
pub proof fn lemma_js_one<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, e: Jp<K0, V0, K1, V1>)
    requires (j.ok)(e.0.0, e.1.0)
    ensures js(j, seq![e]) == Multiset::singleton(e)
{
    reveal(Seq::filter);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let f = |p: Jp<K0, V0, K1, V1>| (j.ok)(p.0.0, p.1.0);
    let s = seq![e];
    assert(s.drop_last() =~= Seq::empty());
    assert(s.drop_last().filter(f) =~= Seq::empty());
    assert(s.filter(f) =~= Seq::<Jp<K0, V0, K1, V1>>::empty().push(e));
    assert(js(j, s) =~= Multiset::singleton(e));
}
/// no accepted pair
pub proof fn lemma_js_len<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Jp<K0, V0, K1, V1>>)
    ensures js(j, s).len() > 0 ==> exists|i: int| 0 <= i < s.len() && (j.ok)((#[trigger] s[i]).0.0, s[i].1.0)
{
    if forall|i: int| 0 <= i < s.len() ==> !(j.ok)((#[trigger] s[i]).0.0, s[i].1.0) { lemma_js_none(j, s); }
}
pub proof fn lemma_prod_empty<S, T>(s: Seq<S>, t: Seq<T>)
    requires s.len() == 0 || t.len() == 0
    ensures prod(s, t) == Seq::<(S, T)>::empty()
{}
pub proof fn lemma_jm_empty<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<(K0, V0)>, t: Seq<(K1, V1)>)
    requires s.len() == 0 || t.len() == 0
    ensures jm(j, s, t) == Multiset::<Jp<K0, V0, K1, V1>>::empty()
{
    lemma_js_none(j, prod(s, t));
}
pub proof fn lemma_jm_left<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<(K0, V0)>, u: Seq<(K0, V0)>, t: Seq<(K1, V1)>)
    ensures jm(j, s + u, t) == jm(j, s, t).add(jm(j, u, t))
    decreases t.len()
{
    if s.len() == 0 { assert(s + u =~= u); lemma_jm_empty(j, s, t); assert(jm(j, u, t) =~= jm(j, s, t).add(jm(j, u, t))); }
    else if u.len() == 0 { assert(s + u =~= s); lemma_jm_empty(j, u, t); assert(jm(j, s, t) =~= jm(j, s, t).add(jm(j, u, t))); }
    else if t.len() == 0 { lemma_jm_empty(j, s, t); lemma_jm_empty(j, u, t); lemma_jm_empty(j, s + u, t); assert(jm(j, s + u, t) =~= jm(j, s, t).add(jm(j, u, t))); }
    else {
        let (x, r) = (t[0], t.skip(1));
        lemma_jm_left(j, s, u, r);
        assert((s + u).skip(0) =~= s + u); assert(s.skip(0) =~= s); assert(u.skip(0) =~= u);
        assert(row(s + u, x) =~= row(s, x) + row(u, x));
        lemma_js_add(j, row(s, x), row(u, x));
        lemma_js_add(j, row(s + u, x), prod(s + u, r));
        lemma_js_add(j, row(s, x), prod(s, r));
        lemma_js_add(j, row(u, x), prod(u, r));
        assert(jm(j, s + u, t) =~= jm(j, s, t).add(jm(j, u, t)));
    }
}
pub proof fn lemma_jm_right<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<(K0, V0)>, t: Seq<(K1, V1)>, u: Seq<(K1, V1)>)
    ensures jm(j, s, t + u) == jm(j, s, t).add(jm(j, s, u))
    decreases t.len()
{
    if s.len() == 0 { lemma_jm_empty(j, s, t); lemma_jm_empty(j, s, u); lemma_jm_empty(j, s, t + u); assert(jm(j, s, t + u) =~= jm(j, s, t).add(jm(j, s, u))); }
    else if t.len() == 0 { assert(t + u =~= u); lemma_jm_empty(j, s, t); assert(jm(j, s, u) =~= jm(j, s, t).add(jm(j, s, u))); }
    else {
        let (x, r) = (t[0], t.skip(1));
        lemma_jm_right(j, s, r, u);
        assert((t + u).skip(1) =~= r + u);
        assert((t + u)[0] == x);
        lemma_js_add(j, row(s.skip(0), x), prod(s, r + u));
        lemma_js_add(j, row(s.skip(0), x), prod(s, r));
        assert(jm(j, s, t + u) =~= jm(j, s, t).add(jm(j, s, u)));
    }
}
// ---- pairs of nodes
pub type Np<B0, K0, V0, B1, K1, V1> = (Node<B0, K0, V0>, Node<B1, K1, V1>);
pub proof fn lemma_jsum_add<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Np<B0, K0, V0, B1, K1, V1>>, t: Seq<Np<B0, K0, V0, B1, K1, V1>>, la: nat, lb: nat)
    ensures jsum(j, s + t, la, lb) == jsum(j, s, la, lb).add(jsum(j, t, la, lb)), jws(s + t, la, lb) == jws(s, la, lb) + jws(t, la, lb)
    decreases s.len()
{
    if s.len() == 0 { assert(s + t =~= t); assert(jsum(j, t, la, lb) =~= jsum(j, s, la, lb).add(jsum(j, t, la, lb))); } else {
        assert((s + t).skip(1) =~= s.skip(1) + t);
        assert((s + t)[0] == s[0]);
        lemma_jsum_add(j, s.skip(1), t, la, lb);
        assert(jsum(j, s + t, la, lb) =~= jsum(j, s, la, lb).add(jsum(j, t, la, lb)));
    }
}
pub proof fn lemma_jsum_at<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Np<B0, K0, V0, B1, K1, V1>>, k: int, la: nat, lb: nat)
    requires 0 <= k < s.len()
    ensures
        jsum(j, s, la, lb) == jsum(j, s.take(k), la, lb).add(jm(j, flat(s[k].0.children, la), flat(s[k].1.children, lb))).add(jsum(j, s.skip(k + 1), la, lb)),
        jws(s, la, lb) >= jw(s[k].0, la, s[k].1, lb) + jws(s.skip(k + 1), la, lb),
{
    let r = s.skip(k);
    assert(s =~= s.take(k) + r);
    lemma_jsum_add(j, s.take(k), r, la, lb);
    assert(r.skip(1) =~= s.skip(k + 1));
    assert(r[0] == s[k]);
    assert(jsum(j, s, la, lb) =~= jsum(j, s.take(k), la, lb).add(jm(j, flat(s[k].0.children, la), flat(s[k].1.children, lb))).add(jsum(j, s.skip(k + 1), la, lb)));
}
/// pairs whose bounds it rejects have nothing it accepts
pub proof fn lemma_jrejected<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<Np<B0, K0, V0, B1, K1, V1>>, la: nat, lb: nat)
    requires forall|i: int| 0 <= i < s.len() ==> jkeeps(j, (#[trigger] s[i]).0, la, s[i].1, lb) && !(j.bok)(s[i].0.bounds, s[i].1.bounds)
    ensures jsum(j, s, la, lb) == Multiset::<Jp<K0, V0, K1, V1>>::empty()
    decreases s.len()
{
    if s.len() > 0 {
        assert(jkeeps(j, s[0].0, la, s[0].1, lb));
        let m = jm(j, flat(s[0].0.children, la), flat(s[0].1.children, lb));
        assert(m.len() == 0);
        assert(m =~= Multiset::empty());
        assert forall|i: int| 0 <= i < s.skip(1).len() implies jkeeps(j, (#[trigger] s.skip(1)[i]).0, la, s.skip(1)[i].1, lb) && !(j.bok)(s.skip(1)[i].0.bounds, s.skip(1)[i].1.bounds) by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_jrejected(j, s.skip(1), la, lb);
        assert(jsum(j, s, la, lb) =~= Multiset::empty());
    }
}
pub proof fn lemma_jsum_row<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, v: Seq<Node<B0, K0, V0>>, la: nat, b: Node<B1, K1, V1>, lb: nat)
    ensures jsum(j, row(v, b), la, lb) == jm(j, flats(v, la), flat(b.children, lb))
    decreases v.len()
{
    if v.len() == 0 { lemma_jm_empty(j, flats(v, la), flat(b.children, lb)); } else {
        let r = row(v, b);
        assert(r.skip(1) =~= row(v.skip(1), b));
        assert(r[0] == (v[0], b));
        lemma_jsum_row(j, v.skip(1), la, b, lb);
        lemma_flats_at(v, 0, la);
        assert(v.take(0) =~= Seq::empty());
        assert(flats(v, la) =~= flat(v[0].children, la) + flats(v.skip(1), la));
        lemma_jm_left(j, flat(v[0].children, la), flats(v.skip(1), la), flat(b.children, lb));
    }
}
pub proof fn lemma_jsum_prod<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, v: Seq<Node<B0, K0, V0>>, la: nat, w: Seq<Node<B1, K1, V1>>, lb: nat)
    ensures jsum(j, prod(v, w), la, lb) == jm(j, flats(v, la), flats(w, lb))
    decreases w.len()
{
    if v.len() == 0 || w.len() == 0 { lemma_jm_empty(j, flats(v, la), flats(w, lb)); } else {
        assert(v.skip(0) =~= v);
        lemma_jsum_add(j, row(v, w[0]), prod(v, w.skip(1)), la, lb);
        lemma_jsum_row(j, v, la, w[0], lb);
        lemma_jsum_prod(j, v, la, w.skip(1), lb);
        lemma_flats_at(w, 0, lb);
        assert(w.take(0) =~= Seq::empty());
        assert(flats(w, lb) =~= flat(w[0].children, lb) + flats(w.skip(1), lb));
        lemma_jm_right(j, flats(v, la), flat(w[0].children, lb), flats(w.skip(1), lb));
    }
}
pub proof fn lemma_kids<B, K, V>(n: Node<B, K, V>, l: nat)
    ensures flats(kids(n, l), dn(l)) == flat(n.children, l)
{
    if l == 0 {
        let s = seq![n];
        assert(s.drop_last() =~= Seq::empty());
        assert(flats(s, 0) == flats(s.drop_last(), 0) + flat(n.children, 0));
        assert(flats(s, 0) =~= flat(n.children, 0));
    }
}
/// a pair of nodes is the pairs of what they are joined as
pub proof fn lemma_jexpand<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat)
    ensures jsum(j, prod(kids(a, la), kids(b, lb)), dn(la), dn(lb)) == jm(j, flat(a.children, la), flat(b.children, lb))
{
    lemma_kids(a, la);
    lemma_kids(b, lb);
    lemma_jsum_prod(j, kids(a, la), dn(la), kids(b, lb), dn(lb));
}
/// every pair of the product is a pair of items
pub proof fn lemma_prod_in<S, T>(s: Seq<S>, t: Seq<T>, i: int) -> (r: (int, int))
    requires 0 <= i < prod(s, t).len()
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < t.len(), prod(s, t)[i] == (s[r.0], t[r.1])
    decreases t.len()
{
    assert(s.skip(0) =~= s);
    if i < s.len() { (i, 0) } else {
        let (a, b) = lemma_prod_in(s, t.skip(1), i - s.len());
        (a, b + 1)
    }
}
// ---- stacks
/// what is above n does not matter
pub proof fn lemma_jabove<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, t: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat, x: Multiset<Jp<K0, V0, K1, V1>>, n: nat, m: nat)
    requires 1 <= n <= m <= s.len() == t.len(), forall|i: int| n <= i < m ==> s[i] == #[trigger] t[i], jbelow(j, s, p0, p1, n) == jbelow(j, t, p0, p1, n).add(x)
    ensures jbelow(j, s, p0, p1, m) == jbelow(j, t, p0, p1, m).add(x), jwb(s, p0, p1, m) - jwb(s, p0, p1, n) == jwb(t, p0, p1, m) - jwb(t, p0, p1, n)
    decreases m
{
    if m > n {
        lemma_jabove(j, s, t, p0, p1, x, n, (m - 1) as nat);
        assert(s[m - 1] == t[m - 1]);
        assert(jbelow(j, s, p0, p1, m) =~= jbelow(j, t, p0, p1, m).add(x));
    }
}
pub proof fn lemma_jsame<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, t: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat, n: nat)
    requires n <= s.len() == t.len(), forall|i: int| 0 <= i < n ==> s[i] == #[trigger] t[i]
    ensures jbelow(j, s, p0, p1, n) == jbelow(j, t, p0, p1, n), jwb(s, p0, p1, n) == jwb(t, p0, p1, n)
    decreases n
{
    if n > 1 { lemma_jsame(j, s, t, p0, p1, (n - 1) as nat); assert(s[n - 1] == t[n - 1]); } else if n == 1 { assert(s[0] == t[0]); }
}
pub open spec fn none<T>(m: Multiset<T>) -> bool { m == Multiset::<T>::empty() }
pub proof fn lemma_none_add<T>(a: Multiset<T>, b: Multiset<T>)
    requires none(a.add(b))
    ensures none(a), none(b)
{
    assert(a.add(b).len() == 0);
    assert(a =~= Multiset::empty());
    assert(b =~= Multiset::empty());
}
/// The k-th pair of level l is taken, and its join started.
pub proof fn lemma_jdescend<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s3: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, l: int, k: int, p0: nat, p1: nat)
    requires
        1 <= l < s1.len(), jgood(j, s1, p0, p1), p0 == 0 || p1 == 0, put_inner(s1, s2, l, inn(s2[l])), inn(s2[l]).inv(), 0 <= k < jpairs(s1, l).len(), jpairs(s2, l) =~= jpairs(s1, l).skip(k + 1),
        forall|i: int| 0 <= i < k ==> !(j.bok)((#[trigger] jpairs(s1, l)[i]).0.bounds, jpairs(s1, l)[i].1.bounds),
//%permit         (j.bok)(jpairs(s1, l)[k].0.bounds, jpairs(s1, l)[k].1.bounds),
        joined(s2, s3, jpairs(s1, l)[k].0, lv(l, p0), jpairs(s1, l)[k].1, lv(l, p1)), none(jbelow(j, s1, p0, p1, l as nat)),
    ensures
        jgood(j, s3, p0, p1), none(jbelow(j, s3, p0, p1, (l - 1) as nat)), s3.len() == s1.len(),
        jbelow(j, s3, p0, p1, s3.len()) == jbelow(j, s1, p0, p1, s1.len()), jwb(s3, p0, p1, s3.len()) < jwb(s1, p0, p1, s1.len()),
{
    let v = jpairs(s1, l);
    let (a, b) = v[k];
    let (la, lb) = (lv(l, p0), lv(l, p1));
    let m = (l - 1) as nat;
    let e = Multiset::<Jp<K0, V0, K1, V1>>::empty();
    assert(jpair(j, a, la, b, lb));
    assert forall|i: int| l < i < s1.len() implies s3[i] == #[trigger] s1[i] by { assert(s2[i] == s1[i]); }
    assert(s3[l] == s2[l]);
    assert forall|i: int| 0 <= i < l - 1 implies s3[i] == #[trigger] s1[i] by { assert(s2[i] == s1[i]); assert(s3[i] == s2[i]); }
    lemma_jsame(j, s3, s1, p0, p1, m);
    let x = jm(j, flat(a.children, la), flat(b.children, lb));
    if l > 1 {
        lemma_none_add(jbelow(j, s1, p0, p1, m), jsum(j, jpairs(s1, l - 1), lv(l - 1, p0), lv(l - 1, p1)));
        assert(dn(la) == lv(l - 1, p0) && dn(lb) == lv(l - 1, p1));
        lemma_jexpand(j, a, la, b, lb);
    }
    assert(jbelow(j, s3, p0, p1, l as nat) =~= x);
    let pre = v.take(k);
    assert forall|i: int| 0 <= i < pre.len() implies jkeeps(j, (#[trigger] pre[i]).0, la, pre[i].1, lb) && !(j.bok)(pre[i].0.bounds, pre[i].1.bounds) by { assert(pre[i] == v[i]); assert(jpair(j, v[i].0, la, v[i].1, lb)); }
    lemma_jrejected(j, pre, la, lb);
    lemma_jsum_at(j, v, k, la, lb);
    assert(jbelow(j, s1, p0, p1, (l + 1) as nat) =~= jsum(j, v, la, lb));
    assert(jbelow(j, s3, p0, p1, (l + 1) as nat) =~= jbelow(j, s1, p0, p1, (l + 1) as nat).add(e));
    lemma_jabove(j, s3, s1, p0, p1, e, (l + 1) as nat, s1.len());
    assert(jbelow(j, s3, p0, p1, s3.len()) =~= jbelow(j, s1, p0, p1, s1.len()));
    // weight
    assert(jwb(s3, p0, p1, (l + 1) as nat) == jwb(s3, p0, p1, l as nat) + jws(v.skip(k + 1), la, lb));
    assert(jwb(s1, p0, p1, (l + 1) as nat) == jwb(s1, p0, p1, l as nat) + jws(v, la, lb));
    if l > 1 {
        assert(jwb(s3, p0, p1, l as nat) == jwb(s3, p0, p1, m) + jws(jpairs(s3, l - 1), lv(l - 1, p0), lv(l - 1, p1)));
        assert(jwb(s1, p0, p1, l as nat) >= jwb(s1, p0, p1, m));
    }
    lemma_jdescend_good(j, s1, s2, s3, l, k, p0, p1);
}
/// ... what that leaves in the stack is sound
pub proof fn lemma_jdescend_good<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s3: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, l: int, k: int, p0: nat, p1: nat)
    requires
        1 <= l < s1.len(), jgood(j, s1, p0, p1), p0 == 0 || p1 == 0, put_inner(s1, s2, l, inn(s2[l])), inn(s2[l]).inv(), 0 <= k < jpairs(s1, l).len(), jpairs(s2, l) =~= jpairs(s1, l).skip(k + 1),
        forall|i: int| 0 <= i < k ==> !(j.bok)((#[trigger] jpairs(s1, l)[i]).0.bounds, jpairs(s1, l)[i].1.bounds),
//%permit         (j.bok)(jpairs(s1, l)[k].0.bounds, jpairs(s1, l)[k].1.bounds),
        joined(s2, s3, jpairs(s1, l)[k].0, lv(l, p0), jpairs(s1, l)[k].1, lv(l, p1)), none(jbelow(j, s1, p0, p1, l as nat)),
    ensures jgood(j, s3, p0, p1)
{
    let v = jpairs(s1, l);
    let (a, b) = v[k];
    let (la, lb) = (lv(l, p0), lv(l, p1));
    assert(jpair(j, a, la, b, lb));
    assert forall|i: int| l < i < s1.len() implies s3[i] == #[trigger] s1[i] by { assert(s2[i] == s1[i]); }
    assert(s3[l] == s2[l]);
    assert forall|i: int| 0 <= i < l - 1 implies s3[i] == #[trigger] s1[i] by { assert(s2[i] == s1[i]); assert(s3[i] == s2[i]); }
    if l > 1 { assert(dn(la) == lv(l - 1, p0) && dn(lb) == lv(l - 1, p1)); }
    // the parts
    assert(jpermits_in(j, a, la, b, lb));
    lemma_jmay(j, a, la, b, lb);
    assert forall|i: int| 1 <= i < s3.len() implies inn(#[trigger] s3[i]).inv() by { if i > l || i < l - 1 { assert(s3[i] == s1[i]); } }
    if l > 1 { assert(s3[0] == s1[0] || s3[0] == s2[0]); assert(s2[0] == s1[0]); }
    assert forall|h: int, i: int| 1 <= h < s3.len() && 0 <= i < jpairs(s3, h).len() implies jpair(j, (#[trigger] jpairs(s3, h)[i]).0, lv(h, p0), jpairs(s3, h)[i].1, lv(h, p1)) by {
        if h == l { assert(jpairs(s3, h)[i] == v[i + k + 1]); }
        else if h == l - 1 {
            let (ka, kb) = (kids(a, la), kids(b, lb));
            let (y, z) = lemma_prod_in(ka, kb, i);
            assert(jkeeps(j, ka[y], dn(la), kb[z], dn(lb)));
            lemma_kid_fits(a, la, y);
            lemma_kid_fits(b, lb, z);
        } else { assert(s3[h] == s1[h]); assert(jpairs(s3, h)[i] == jpairs(s1, h)[i]); }
    }
}
pub proof fn lemma_kid_fits<B, K, V>(n: Node<B, K, V>, l: nat, i: int)
    requires fitted(n.children, l), 0 <= i < kids(n, l).len()
    ensures fitted(kids(n, l)[i].children, dn(l))
{
    let cap = choose|cap: nat| #[trigger] fits(n.children, l, cap);
    if l > 0 { assert(fits(inner(n.children)@[i].children, (l - 1) as nat, cap)); }
}
pub proof fn lemma_jput<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, l: int, d: int, p0: nat, p1: nat)
    requires
        1 <= l < s1.len(), jgood(j, s1, p0, p1), put_inner(s1, s2, l, inn(s2[l])), inn(s2[l]).inv(), 0 <= d <= jpairs(s1, l).len(), jpairs(s2, l) =~= jpairs(s1, l).skip(d),
    ensures jgood(j, s2, p0, p1)
{
    assert(s2[0] == s1[0]);
    assert forall|i: int| 1 <= i < s2.len() implies inn(#[trigger] s2[i]).inv() by { if i != l { assert(s2[i] == s1[i]); } }
    assert forall|h: int, i: int| 1 <= h < s2.len() && 0 <= i < jpairs(s2, h).len() implies jpair(j, (#[trigger] jpairs(s2, h)[i]).0, lv(h, p0), jpairs(s2, h)[i].1, lv(h, p1)) by {
        if h == l { assert(jpairs(s2, h)[i] == jpairs(s1, h)[i + d]); } else { assert(s2[h] == s1[h]); assert(jpairs(s2, h)[i] == jpairs(s1, h)[i]); }
    }
}
/// All pairs of level l are rejected.
pub proof fn lemma_jpassed<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, l: int, p0: nat, p1: nat)
    requires
        1 <= l < s1.len(), jgood(j, s1, p0, p1), put_inner(s1, s2, l, inn(s2[l])), inn(s2[l]).inv(), jpairs(s2, l).len() == 0,
        forall|i: int| 0 <= i < jpairs(s1, l).len() ==> !(j.bok)((#[trigger] jpairs(s1, l)[i]).0.bounds, jpairs(s1, l)[i].1.bounds), none(jbelow(j, s1, p0, p1, l as nat)),
    ensures
        jgood(j, s2, p0, p1), none(jbelow(j, s2, p0, p1, (l + 1) as nat)), s2.len() == s1.len(),
        jbelow(j, s2, p0, p1, s2.len()) == jbelow(j, s1, p0, p1, s1.len()), jwb(s2, p0, p1, s2.len()) <= jwb(s1, p0, p1, s1.len()),
{
    let v = jpairs(s1, l);
    let (la, lb) = (lv(l, p0), lv(l, p1));
    let e = Multiset::<Jp<K0, V0, K1, V1>>::empty();
    assert(jpairs(s2, l) =~= v.skip(v.len() as int));
    lemma_jput(j, s1, s2, l, v.len() as int, p0, p1);
    assert forall|i: int| 0 <= i < v.len() implies jkeeps(j, (#[trigger] v[i]).0, la, v[i].1, lb) && !(j.bok)(v[i].0.bounds, v[i].1.bounds) by { assert(jpair(j, v[i].0, la, v[i].1, lb)); }
    lemma_jrejected(j, v, la, lb);
    lemma_jsame(j, s2, s1, p0, p1, l as nat);
    assert(jbelow(j, s2, p0, p1, (l + 1) as nat) =~= e);
    assert(jbelow(j, s1, p0, p1, (l + 1) as nat) =~= e);
    assert(e.add(e) =~= e);
    lemma_jabove(j, s2, s1, p0, p1, e, (l + 1) as nat, s1.len());
    assert(jbelow(j, s2, p0, p1, s2.len()) =~= jbelow(j, s1, p0, p1, s1.len()));
    assert(jwb(s2, p0, p1, (l + 1) as nat) == jwb(s2, p0, p1, l as nat));
}
pub proof fn lemma_jput_leaf<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat)
    requires s1.len() > 0, jgood(j, s1, p0, p1), put_leaf(s1, s2, lf(s2[0])), lf(s2[0]).inv(), exists|k: int| 0 <= k <= jleaf(s1).len() && jleaf(s2) =~= #[trigger] jleaf(s1).skip(k)
    ensures jgood(j, s2, p0, p1)
{
    assert forall|i: int| 1 <= i < s2.len() implies inn(#[trigger] s2[i]).inv() by { assert(s2[i] == s1[i]); }
    assert forall|h: int, i: int| 1 <= h < s2.len() && 0 <= i < jpairs(s2, h).len() implies jpair(j, (#[trigger] jpairs(s2, h)[i]).0, lv(h, p0), jpairs(s2, h)[i].1, lv(h, p1)) by { assert(s2[h] == s1[h]); assert(jpairs(s2, h)[i] == jpairs(s1, h)[i]); }
}
/// All pairs of entries are rejected.
pub proof fn lemma_jleaf<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat)
    requires
        s1.len() > 0, jgood(j, s1, p0, p1), put_leaf(s1, s2, lf(s2[0])), lf(s2[0]).inv(), jleaf(s2).len() == 0,
        forall|i: int| 0 <= i < jleaf(s1).len() ==> !(j.ok)((#[trigger] jleaf(s1)[i]).0.0, jleaf(s1)[i].1.0),
    ensures
        jgood(j, s2, p0, p1), none(jbelow(j, s2, p0, p1, 1)), s2.len() == s1.len(),
        jbelow(j, s2, p0, p1, s2.len()) == jbelow(j, s1, p0, p1, s1.len()), jwb(s2, p0, p1, s2.len()) == jwb(s1, p0, p1, s1.len()),
{
    let e = Multiset::<Jp<K0, V0, K1, V1>>::empty();
    assert(jleaf(s2) =~= jleaf(s1).skip(jleaf(s1).len() as int));
    lemma_jput_leaf(j, s1, s2, p0, p1);
    lemma_js_none(j, jleaf(s1));
    lemma_js_none(j, jleaf(s2));
    assert(e.add(e) =~= e);
    lemma_jabove(j, s2, s1, p0, p1, e, 1, s1.len());
    assert(jbelow(j, s2, p0, p1, s2.len()) =~= jbelow(j, s1, p0, p1, s1.len()));
}
/// The first pair of entries that passes is taken.
pub proof fn lemma_jtaken<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s1: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, s2: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, x: Jp<K0, V0, K1, V1>, p0: nat, p1: nat)
    requires
        s1.len() > 0, jgood(j, s1, p0, p1), put_leaf(s1, s2, lf(s2[0])), lf(s2[0]).inv(), (j.ok)(x.0.0, x.1.0),
        ({ let v = jleaf(s1); let k = v.len() - jleaf(s2).len() - 1; 0 <= k && jleaf(s2) =~= v.skip(k + 1) && v[k] == x && forall|i: int| 0 <= i < k ==> !(j.ok)((#[trigger] v[i]).0.0, v[i].1.0) }),
    ensures jgood(j, s2, p0, p1), s2.len() == s1.len(), jbelow(j, s1, p0, p1, s1.len()) == jbelow(j, s2, p0, p1, s2.len()).insert(x)
{
    let v = jleaf(s1);
    let k = v.len() - jleaf(s2).len() - 1;
    assert(jleaf(s2) =~= v.skip(k + 1));
    lemma_jput_leaf(j, s1, s2, p0, p1);
    assert(v =~= v.take(k) + (seq![x] + v.skip(k + 1)));
    lemma_js_none(j, v.take(k));
    lemma_js_one(j, x);
    lemma_js_add(j, v.take(k), seq![x] + v.skip(k + 1));
    lemma_js_add(j, seq![x], v.skip(k + 1));
    let o = Multiset::singleton(x);
    assert(jbelow(j, s1, p0, p1, 1) =~= jbelow(j, s2, p0, p1, 1).add(o));
    lemma_jabove(j, s1, s2, p0, p1, o, 1, s1.len());
    assert(jbelow(j, s1, p0, p1, s1.len()) =~= jbelow(j, s2, p0, p1, s2.len()).insert(x));
}
/// One of the nodes is empty, or their bounds are rejected.
pub proof fn lemma_jnothing<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat)
    requires clen(a.children, la) > 0 && clen(b.children, lb) > 0 ==> jpair(j, a, la, b, lb) && !(j.bok)(a.bounds, b.bounds)
    ensures none(jm(j, flat(a.children, la), flat(b.children, lb)))
{
    let m = jm(j, flat(a.children, la), flat(b.children, lb));
    if clen(a.children, la) == 0 || clen(b.children, lb) == 0 {
        if clen(a.children, la) == 0 { assert(flat(a.children, la) =~= Seq::empty()); }
        if clen(b.children, lb) == 0 { assert(flat(b.children, lb) =~= Seq::empty()); }
        lemma_jm_empty(j, flat(a.children, la), flat(b.children, lb));
    } else {
        assert(m.len() == 0);
        assert(m =~= Multiset::empty());
    }
}
/// nothing at all below n
pub proof fn lemma_jblank<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, p0: nat, p1: nat, n: nat)
    requires n <= s.len(), s.len() > 0 ==> jleaf(s).len() == 0, forall|i: int| 1 <= i < n ==> inn(#[trigger] s[i]).left().len() == 0
    ensures none(jbelow(j, s, p0, p1, n))
    decreases n
{
    if n == 1 { lemma_js_none(j, jleaf(s)); }
    if n > 1 {
        lemma_jblank(j, s, p0, p1, (n - 1) as nat);
        assert(inn(s[n - 1]).left().len() == 0);
        assert(jbelow(j, s, p0, p1, n) =~= Multiset::empty());
    }
}
/// The join of the roots is started on a blank stack.
pub proof fn lemma_jfresh<'a, 'b, B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, t: Js<'a, 'b, B0, B1, K0, K1, V0, V1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat, p0: nat, p1: nat)
    requires
        stack_of(s), s.len() == 1 + if la >= lb { la } else { lb }, p0 == s.len() - 1 - la, p1 == s.len() - 1 - lb, jpair(j, a, la, b, lb), jpermits_in(j, a, la, b, lb), joined(s, t, a, la, b, lb),
        lf(s[0]).inv(), jleaf(s).len() == 0, forall|i: int| 1 <= i < s.len() ==> inn(#[trigger] s[i]).inv() && inn(s[i]).left().len() == 0,
    ensures jgood(j, t, p0, p1), jbelow(j, t, p0, p1, t.len()) == jm(j, flat(a.children, la), flat(b.children, lb))
{
    let m = s.len() - 1;
    lemma_jmay(j, a, la, b, lb);
    if m > 0 {
        assert(t[0] == s[0]);
        assert forall|i: int| 1 <= i < m implies inn(#[trigger] t[i]).left().len() == 0 && inn(t[i]).inv() by { assert(t[i] == s[i]); }
        lemma_jblank(j, t, p0, p1, m as nat);
        lemma_jexpand(j, a, la, b, lb);
        assert(lv(m, p0) == dn(la) && lv(m, p1) == dn(lb));
        assert(jbelow(j, t, p0, p1, t.len()) =~= jm(j, flat(a.children, la), flat(b.children, lb)));
        assert forall|h: int, i: int| 1 <= h < t.len() && 0 <= i < jpairs(t, h).len() implies jpair(j, (#[trigger] jpairs(t, h)[i]).0, lv(h, p0), jpairs(t, h)[i].1, lv(h, p1)) by {
            if h == m {
                let (ka, kb) = (kids(a, la), kids(b, lb));
                let (y, z) = lemma_prod_in(ka, kb, i);
                assert(jkeeps(j, ka[y], dn(la), kb[z], dn(lb)));
                lemma_kid_fits(a, la, y);
                lemma_kid_fits(b, lb, z);
            } else { assert(inn(t[h]).left().len() == 0); }
        }
    }
}
/// What a join filter owes two trees: it rejects no bounds that contain keys it accepts.
pub open spec fn join_law<B0: Bounds, B1: Bounds, K0: Bounded<B0>, K1: Bounded<B1>, V0, V1>(j: Jf<B0, B1, K0, K1>, s: Seq<(K0, V0)>, t: Seq<(K1, V1)>) -> bool {
    forall|x: B0, y: B1, i: int, k: int| 0 <= i < s.len() && 0 <= k < t.len() && #[trigger] ub::<B0, K0>(&s[i].0).contains(x) && #[trigger] ub::<B1, K1>(&t[k].0).contains(y) && (j.ok)(s[i].0, t[k].0) ==> (j.bok)(x, y)
}
/// the bounds of a node contain those of its entries
pub proof fn lemma_tight_in<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, i: int)
    requires law::<B, K>(), tight::<B, K, V>(n, l), 0 <= i < flat(n.children, l).len()
    ensures ub::<B, K>(&flat(n.children, l)[i].0).contains(n.bounds)
{
    assert(B::up(n.bounds).contains(n.bounds));
    lemma_kub_leaf::<B, K, V>(flat(n.children, l), n.bounds);
}
/// what a node is joined as is tight, and its entries are among those of the node
pub proof fn lemma_kid_tight<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, i: int) -> (p: int)
    requires tight::<B, K, V>(n, l), 0 <= i < kids(n, l).len()
    ensures
        tight::<B, K, V>(kids(n, l)[i], dn(l)), 0 <= p, p + flat(kids(n, l)[i].children, dn(l)).len() <= flat(n.children, l).len(),
        forall|h: int| 0 <= h < flat(kids(n, l)[i].children, dn(l)).len() ==> #[trigger] flat(kids(n, l)[i].children, dn(l))[h] == flat(n.children, l)[p + h],
{
    if l == 0 { 0 } else {
        let v = inner(n.children)@;
        lemma_flats_at(v, i, (l - 1) as nat);
        flats(v.take(i), (l - 1) as nat).len() as int
    }
}
pub proof fn lemma_jkeeps<B0: Bounds + Clone, B1: Bounds + Clone, K0: Bounded<B0>, K1: Bounded<B1>, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat)
    requires law::<B0, K0>(), law::<B1, K1>(), tight::<B0, K0, V0>(a, la), tight::<B1, K1, V1>(b, lb), join_law::<B0, B1, K0, K1, V0, V1>(j, flat(a.children, la), flat(b.children, lb))
    ensures jkeeps(j, a, la, b, lb)
    decreases la + lb
{
    let (s, t) = (flat(a.children, la), flat(b.children, lb));
    if jm(j, s, t).len() > 0 {
        lemma_js_len(j, prod(s, t));
        let i = choose|i: int| 0 <= i < prod(s, t).len() && (j.ok)((#[trigger] prod(s, t)[i]).0.0, prod(s, t)[i].1.0);
        let (y, z) = lemma_prod_in(s, t, i);
        lemma_tight_in::<B0, K0, V0>(a, la, y);
        lemma_tight_in::<B1, K1, V1>(b, lb, z);
        assert((j.ok)(s[y].0, t[z].0));
    }
    if la + lb > 0 {
        assert forall|i: int, k: int| #![trigger kids(a, la)[i], kids(b, lb)[k]] 0 <= i < kids(a, la).len() && 0 <= k < kids(b, lb).len() implies jkeeps(j, kids(a, la)[i], dn(la), kids(b, lb)[k], dn(lb)) by {
            let p = lemma_kid_tight::<B0, K0, V0>(a, la, i);
            let q = lemma_kid_tight::<B1, K1, V1>(b, lb, k);
            let (c, d) = (flat(kids(a, la)[i].children, dn(la)), flat(kids(b, lb)[k].children, dn(lb)));
            assert forall|x: B0, y: B1, g: int, h: int| 0 <= g < c.len() && 0 <= h < d.len() && #[trigger] ub::<B0, K0>(&c[g].0).contains(x) && #[trigger] ub::<B1, K1>(&d[h].0).contains(y) && (j.ok)(c[g].0, d[h].0) implies (j.bok)(x, y) by {
                assert(c[g] == s[p + g] && d[h] == t[q + h]);
                assert(ub::<B0, K0>(&s[p + g].0).contains(x) && ub::<B1, K1>(&t[q + h].0).contains(y));
            }
            lemma_jkeeps::<B0, B1, K0, K1, V0, V1>(j, kids(a, la)[i], dn(la), kids(b, lb)[k], dn(lb));
        }
    }
}
//@ module rtree_join from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::JoinFilter, node::*, rtree::*, join::*, join};
//@ only RTree::join
//@ fn RTree::join
    requires
        self.fits(), other.fits(), filter.jlaw(),
        jpair(jf::<B, B1, Key, Key1, Q0, Q1, F>(filter), self.root.node, self.root.level as nat, other.root.node, other.root.level as nat),
    ensures
        res.wf(), res.filter == filter, res.left() == jm(jf::<B, B1, Key, Key1, Q0, Q1, F>(filter), self.entries(), other.entries()),
//@ text
/// a root with children has entries
pub proof fn lemma_jroots<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, t: RTree<B0, K0, V0>, u: RTree<B1, K1, V1>)
    requires t.fits(), u.fits()
    ensures fitted(t.root.node.children, t.root.level as nat), fitted(u.root.node.children, u.root.level as nat)
{}
/// Sound trees can be joined by every filter that rejects no bounds with keys it accepts.
pub proof fn theorem_joined<B0: Bounds + Clone, B1: Bounds + Clone, K0: Bounded<B0> + Borrow<Q0>, K1: Bounded<B1> + Borrow<Q1>, V0, V1, Q0: ?Sized, Q1: ?Sized, F: JoinFilter<B0, B1, Q0, Q1>>(t: RTree<B0, K0, V0>, u: RTree<B1, K1, V1>, f: F)
    requires
        t.sound(), u.sound(), law::<B0, K0>(), law::<B1, K1>(),
        join_law::<B0, B1, K0, K1, V0, V1>(jf::<B0, B1, K0, K1, Q0, Q1, F>(f), t.entries(), u.entries()),
        jpermits(jf::<B0, B1, K0, K1, Q0, Q1, F>(f), t.root.node, t.root.level as nat, u.root.node, u.root.level as nat),
    ensures
        t.fits(), u.fits(), jpair(jf::<B0, B1, K0, K1, Q0, Q1, F>(f), t.root.node, t.root.level as nat, u.root.node, u.root.level as nat),
{
    let j = jf::<B0, B1, K0, K1, Q0, Q1, F>(f);
    theorem_sound(t);
    theorem_sound(u);
    lemma_tight::<B0, K0, V0>(t.root.node, t.root.level as nat, t.root.alloc);
    lemma_tight::<B1, K1, V1>(u.root.node, u.root.level as nat, u.root.alloc);
    lemma_jkeeps::<B0, B1, K0, K1, V0, V1>(j, t.root.node, t.root.level as nat, u.root.node, u.root.level as nat);
    lemma_jroots(j, t, u);
}
//%permit /// Whatever may be tested below a pair of nodes whose bounds j rejects: joining needs no permission for it, so it tests none of it.
//%permit pub proof fn theorem_rejected_pair<B0, B1, K0, K1, V0, V1>(j: Jf<B0, B1, K0, K1>, a: Node<B0, K0, V0>, la: nat, b: Node<B1, K1, V1>, lb: nat)
//%permit     requires !(j.bok)(a.bounds, b.bounds)
//%permit     ensures jpermits(j, a, la, b, lb)
//%permit {}
