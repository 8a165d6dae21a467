//! a stack of iterators is a vector of entries: Box<[Entry]> and Vec<Entry> convert into each other without change (Vec::leak and Box::from_raw casts are dropped)
//! the items a slice iterator has left are determined by its state; a map over a range gives as many items
//! an iterator's Stack parameter is a type that gives access to a stack (Deref and DerefMut as the methods of a trait)
//@ include rtree.vs
//@ module iter_stack from src/iter_stack.rs
//@ uses
use super::*;
use super::std_model::*;
use core::mem::ManuallyDrop;
use vstd::std_specs::iter::IteratorSpec;
//@ only Entry;VecIterStack;VecIterStack::*;IterStack;IterStack::*;IterStack<Leaf,Inner> as Index<NonZeroUsize>;IterStack<Leaf,Inner> as IndexMut<NonZeroUsize>
//@ drop IterStack::init_into; IterStack::map; IterStack::map_into
//@ rewrite pub struct IterStack<Leaf, Inner>([Entry<Leaf, Inner>]); ==> pub struct IterStack<Leaf, Inner>(pub Vec<Entry<Leaf, Inner>>);
//@ rewrite Box<IterStack<Leaf, Inner>> ==> IterStack<Leaf, Inner>
//@ rewrite Box<Self> ==> Self
//@ rewrite I: IntoIterator<Item = Inner>, I::IntoIter: ExactSizeIterator, ==> I: Iterator<Item = Inner>,
//@ rewrite &mut self.0[0].leaf ==> md_mut(&mut self.0[0].leaf)
//@ rewrite &mut self.0[index.get()].inner ==> md_mut(&mut self.0[index.get()].inner)
//@ rewrite &Self::Output ==> &Inner
//@ rewrite &mut Self::Output ==> &mut Inner
//@ rewrite type Output = Inner; ==>
//@ item VecIterStack
attr #[verifier::reject_recursive_types(Leaf)]
attr #[verifier::reject_recursive_types(Inner)]
//@ item IterStack
attr #[verifier::reject_recursive_types(Leaf)]
attr #[verifier::reject_recursive_types(Inner)]
//@ item Entry
attr #[verifier::reject_recursive_types(Leaf)]
attr #[verifier::reject_recursive_types(Inner)]
//@ item IterStack<Leaf,Inner> as Index<NonZeroUsize>
header <Leaf, Inner> IterStack<Leaf, Inner>
//@ item IterStack<Leaf,Inner> as IndexMut<NonZeroUsize>
header <Leaf, Inner> IterStack<Leaf, Inner>
//@ fn VecIterStack::new
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires inner.obeys_prophetic_iter_laws(), inner.decrease() is Some
    ensures
        res.0@.len() == inner.remaining().len() + 1, stack_of(res.0@), lf(res.0@[0]) == leaf, inner.will_return_none(),
        forall|j: int| 1 <= j < res.0@.len() ==> inn(#[trigger] res.0@[j]) == inner.remaining()[j - 1],
//@ rewrite let inner = inner.into_iter(); ==>
//@ rewrite Vec::with_capacity(inner.len() + 1) ==> Vec::new()
//@ forloop 0 it
//@ loop 0
            invariant
                it.obeys_prophetic_iter_laws(), it.decrease() is Some, inner.will_return_none() == it.will_return_none(), stack_of(stack@), lf(stack@[0]) == leaf,
                stack@.len() >= 1, stack@.len() + it.remaining().len() == inner.remaining().len() + 1, it.remaining() =~= inner.remaining().skip(stack@.len() - 1),
                forall|j: int| 1 <= j < stack@.len() ==> inn(#[trigger] stack@[j]) == inner.remaining()[j - 1],
            ensures it.remaining().len() == 0, it.will_return_none()
            decreases it.decrease()->Some_0
//@ fn VecIterStack::into_box
    ensures res@ == self.0@
//@ rewrite unsafe { ptr::read(&ManuallyDrop::new(self).0) } ==> self.0
//@ rewrite Vec::leak(vec) ==> vec
//@ rewrite unsafe { Box::from_raw(slice as *mut _ as *mut IterStack<Leaf, Inner>) } ==> IterStack(slice)
//@ fn IterStack::empty_box
    ensures res@.len() == 0
//@ rewrite unsafe { Box::from_raw(empty_slice::<Entry<Leaf, Inner>>() as *mut _ as *mut Self) } ==> IterStack(Vec::new())
//@ fn IterStack::new_box
    requires inner.obeys_prophetic_iter_laws(), inner.decrease() is Some
    ensures
        res@.len() == inner.remaining().len() + 1, stack_of(res@), lf(res@[0]) == leaf, inner.will_return_none(),
        forall|j: int| 1 <= j < res@.len() ==> inn(#[trigger] res@[j]) == inner.remaining()[j - 1],
//@ fn IterStack::len
    ensures res == self@.len()
//@ fn IterStack::leaf
    requires self@.len() > 0, stack_of(self@)
    ensures *res == lf(self@[0])
//@ fn IterStack::leaf_mut
    requires old(self)@.len() > 0, stack_of(old(self)@)
    ensures *res == lf(old(self)@[0]), put_leaf(old(self)@, final(self)@, *final(res))
//@ fn IterStack<Leaf,Inner> as Index<NonZeroUsize>::index
    requires index@ < self@.len(), stack_of(self@)
    ensures *res == inn(self@[index@ as int])
//@ fn IterStack<Leaf,Inner> as IndexMut<NonZeroUsize>::index_mut
    requires index@ < old(self)@.len(), stack_of(old(self)@)
    ensures *res == inn(old(self)@[index@ as int]), put_inner(old(self)@, final(self)@, index@ as int, *final(res))
//@ text
pub open spec fn lf<L, I>(e: Entry<L, I>) -> L { get_union_field::<Entry<L, I>, ManuallyDrop<L>>(e, "leaf")@ }
pub open spec fn inn<L, I>(e: Entry<L, I>) -> I { get_union_field::<Entry<L, I>, ManuallyDrop<I>>(e, "inner")@ }
/// entry 0 is a leaf, the others are inner
pub open spec fn stack_of<L, I>(s: Seq<Entry<L, I>>) -> bool {
    (s.len() > 0 ==> is_variant(s[0], "leaf")) && forall|i: int| 1 <= i < s.len() ==> is_variant(#[trigger] s[i], "inner")
}
/// t is s with x as the leaf
pub open spec fn put_leaf<L, I>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>, x: L) -> bool {
    s.len() == t.len() && stack_of(t) && lf(t[0]) == x && forall|i: int| 1 <= i < s.len() ==> #[trigger] t[i] == s[i]
}
/// t is s with x at k
pub open spec fn put_inner<L, I>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>, k: int, x: I) -> bool {
    s.len() == t.len() && stack_of(t) && inn(t[k]) == x && forall|i: int| 0 <= i < s.len() && i != k ==> #[trigger] t[i] == s[i]
}
impl<L, I> IterStack<L, I> {
    pub open spec fn view(&self) -> Seq<Entry<L, I>> { self.0@ }
}
/// Deref and DerefMut to a stack
pub trait StackMut {
    type L;
    type I;
    spec fn stk(&self) -> Seq<Entry<Self::L, Self::I>>;
    fn st(&self) -> (r: &IterStack<Self::L, Self::I>)
        ensures r@ == self.stk();
    fn st_mut(&mut self) -> (r: &mut IterStack<Self::L, Self::I>)
        ensures r@ == old(self).stk(), final(r)@ == final(self).stk();
}
/// Box<IterStack>
impl<L, I> StackMut for IterStack<L, I> {
    type L = L;
    type I = I;
    open spec fn stk(&self) -> Seq<Entry<L, I>> { self@ }
    fn st(&self) -> (r: &IterStack<L, I>) { self }
    fn st_mut(&mut self) -> (r: &mut IterStack<L, I>) { self }
}

//@ module iter from src/iter.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::{NoFilter, SpatialFilter}, node::*, iter_stack::*, util::empty_slice};
use core::marker::PhantomData;
use core::slice;
use vstd::std_specs::iter::IteratorSpec;
//@ only TreeIter;Iter;Iter::*;FilterIter;FilterIter::*;Iter<Stack> as Iterator;FilterIter<Stack,Q,F> as Iterator
//@ rewrite Stack: DerefMut<Target = TreeIter<'a, B, Key, Value>>, Node<B, Key, Value>: 'a, ==> Stack: StackMut<L = slice::Iter<'a, (Key, Value)>, I = slice::Iter<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a,
//@ rewrite Box<TreeIter<'a, B, Key, Value>> ==> TreeIter<'a, B, Key, Value>
//@ rewrite fn next<Q>(&mut self, filter: &mut impl SpatialFilter<B, Q>) ==> fn next<Q, F: SpatialFilter<B, Q>>(&mut self, filter: &mut F)
//@ rewrite fn next(&mut self) -> Option<Self::Item> ==> fn next_item(&mut self) -> Option<(&'a Key, &'a Value)>
//@ rewrite type Item = (&'a Key, &'a Value); ==>
//@ rewrite self.stack[nz_level] = $e; ==> *self.stack.st_mut().index_mut(nz_level) = $e;
//@ rewrite self.stack[nz_level] ==> self.stack.st_mut().index_mut(nz_level)
//@ rewrite self.stack.leaf_mut() ==> self.stack.st_mut().leaf_mut()
//@ rewrite stack[level] = $e; ==> *stack.index_mut(level) = $e;
//@ rewrite stack[children.level()] = $e; ==> *stack.index_mut(children.level()) = $e;
//@ rewrite self.stack.len() ==> self.stack.st().len()
//@ item Iter
attr #[verifier::reject_recursive_types(Stack)]
//@ item FilterIter
attr #[verifier::reject_recursive_types(Stack)]
attr #[verifier::reject_recursive_types(Q)]
attr #[verifier::reject_recursive_types(F)]
//@ item Iter<Stack> as Iterator
header <'a, B, Key, Value, Stack> Iter<Stack> where Stack: StackMut<L = slice::Iter<'a, (Key, Value)>, I = slice::Iter<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a
//@ item FilterIter<Stack,Q,F> as Iterator
header <'a, B, Key, Value, Stack, Q, F> FilterIter<Stack, Q, F> where Stack: StackMut<L = slice::Iter<'a, (Key, Value)>, I = slice::Iter<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a, Key: Borrow<Q>, Q: ?Sized, F: SpatialFilter<B, Q>
//@ fn Iter::new_from_stack
    ensures res.stack == stack
//@ fn Iter::new_empty
    ensures res.stack@.len() == 0
//@ fn Iter::new
    requires root.wf()
    ensures stack_of(res.stack@), rooted(res.stack@, root)
//@ start
        broadcast use iter_state;
//@ rewrite (0..$e).map($f) ==> mapped(0..$e, $f)
//@ closure 0 | _i: usize | -> (r: slice::Iter<'a, Node<B, Key, Value>>)
    ensures r.remaining().len() == 0
//@ before match root.children()
        let ghost s0 = stack@;
        proof { assert forall|i: int| 1 <= i < s0.len() implies nodes(#[trigger] pt(s0, i), i).len() == 0 by { assert(inn(s0[i]).remaining().len() == 0); } }
//@ tail
        proof { lemma_new(s0, stack@, root); }
//@ fn Iter::next
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        old(filter).flaw(), stack_of(old(self).stack.stk()), exists|cap: nat| #[trigger] fit(old(self).stack.stk(), cap), kept::<B, Key, Value, Q, F>(old(self).stack.stk(), *old(filter)),
    ensures
        *final(filter) == *old(filter),
        stack_of(final(self).stack.stk()), forall|cap: nat| #[trigger] fit(old(self).stack.stk(), cap) ==> fit(final(self).stack.stk(), cap), kept::<B, Key, Value, Q, F>(final(self).stack.stk(), *old(filter)),
        res is None ==> sel::<B, Key, Value, Q, F>(*old(filter), pend(old(self).stack.stk())).len() == 0 && pend(final(self).stack.stk()).len() == 0,
        res is Some ==> sel::<B, Key, Value, Q, F>(*old(filter), pend(old(self).stack.stk())) == seq![(*res->Some_0.0, *res->Some_0.1)] + sel::<B, Key, Value, Q, F>(*old(filter), pend(final(self).stack.stk())),
//@ start
        broadcast use iter_state;
        let ghost f0 = *filter;
        let ghost s0 = self.stack.stk();
        let ghost cap = choose|cap: nat| #[trigger] fit(s0, cap);
//@ loop 0
            invariant
                *filter == f0, f0.flaw(), s0 == old(self).stack.stk(), stack_of(self.stack.stk()), level <= self.stack.stk().len() == s0.len(), fit(self.stack.stk(), cap), fit(s0, cap),
                forall|c: nat| #[trigger] fit(s0, c) ==> fit(self.stack.stk(), c),
                kept::<B, Key, Value, Q, F>(self.stack.stk(), f0), below(self.stack.stk(), level as nat).len() == 0,
                sel::<B, Key, Value, Q, F>(f0, pend(self.stack.stk())) == sel::<B, Key, Value, Q, F>(f0, pend(s0)),
            ensures level == self.stack.stk().len()
            decreases wbelow(self.stack.stk(), self.stack.stk().len()), self.stack.stk().len() - level
//@ loopstart 0
            broadcast use iter_state;
            let ghost s1 = self.stack.stk();
//%permit             proof { assert forall|i: int| 0 <= i < rem(lf(s1[0])).len() implies f0.may_test((#[trigger] rem(lf(s1[0]))[i]).0.borrow_spec()) by { assert(*rem(lf(s1[0]))[i] == items(lf(s1[0]))[i]); } }
//@ before level -= 1;
                    let ghost s2 = self.stack.stk();
                    let ghost ll = level as int;
                    let ghost k = nodes(s1, ll).len() - nodes(s2, ll).len() - 1;
                    proof { lemma_fits_at(s1, ll, k, cap); }
//@ after *self.stack.st_mut().index_mut(nz_level) = unsafe { node.inner_children() }.iter();
                        proof { lemma_descend::<B, Key, Value, Q, F>(f0, s0, s1, s2, self.stack.stk(), ll, k, cap); }
//@ after *self.stack.st_mut().leaf_mut() = unsafe { node.leaf_children() }.iter();
                        proof { lemma_descend::<B, Key, Value, Q, F>(f0, s0, s1, s2, self.stack.stk(), ll, k, cap); }
//@ before #1 level += 1;
                    proof { lemma_passed::<B, Key, Value, Q, F>(f0, s0, s1, self.stack.stk(), level as int, cap); }
//@ before #2 level += 1;
                proof { lemma_passed_leaf::<B, Key, Value, Q, F>(f0, s0, s1, self.stack.stk(), cap); }
//@ before return Some((&entry.0, &entry.1));
                proof { lemma_taken_leaf::<B, Key, Value, Q, F>(f0, s0, s1, self.stack.stk(), *entry, cap); }
//@ closure 0 | node: &&'a Node<B, Key, Value> | -> (r: bool)
//%permit     ensures r == f0.bounds_ok(&node.bounds)
//%!permit     ensures f0.bounds_ok(&node.bounds) ==> r
//@ closure 1 | e: &&'a (Key, Value) | -> (r: bool)
//%permit     requires f0.may_test(e.0.borrow_spec())
    ensures r == f0.key_ok(e.0.borrow_spec())
//@ fn Iter<Stack> as Iterator::next_item
    requires old(self).wf()
    ensures
        final(self).wf(),
        res is None ==> old(self).left().len() == 0 && final(self).left().len() == 0,
        res is Some ==> old(self).left() == seq![(*res->Some_0.0, *res->Some_0.1)] + final(self).left(),
//@ start
        proof { lemma_kept_all(self.stack.stk()); lemma_sel_all::<B, Key, Value>(pend(self.stack.stk())); }
        let ghost s0 = self.stack.stk();
        let ghost cap = choose|cap: nat| #[trigger] fit(s0, cap);
//@ tailbind r
        proof { lemma_sel_all::<B, Key, Value>(pend(self.stack.stk())); assert(fit(self.stack.stk(), cap)); }
//@ fn FilterIter::new
    requires root.wf(), filter.flaw(), keeps::<B, Key, Value, Q, F>(filter, *root.node, root.level as nat), permits::<B, Key, Value, Q, F>(filter, *root.node, root.level as nat)
    ensures res.wf(), res.filter == filter, res.left() == sel::<B, Key, Value, Q, F>(filter, flat(root.node.children, root.level as nat))
//@ tailbind r
        proof { lemma_start::<B, Key, Value, Q, F>(r.iter.stack@, root, filter); }
//@ fn FilterIter::new_from_stack
    ensures res.iter.stack == stack, res.filter == filter
//@ fn FilterIter<Stack,Q,F> as Iterator::next_item
    requires old(self).wf()
    ensures
        final(self).wf(),
        res is None ==> old(self).left().len() == 0 && final(self).left().len() == 0,
        res is Some ==> old(self).left() == seq![(*res->Some_0.0, *res->Some_0.1)] + final(self).left(),
//@ start
        let ghost s0 = self.iter.stack.stk();
        let ghost cap = choose|cap: nat| #[trigger] fit(s0, cap);
//@ tailbind r
        proof { assert(fit(self.iter.stack.stk(), cap)); }
//@ text
pub open spec fn made<T, F: FnMut(usize) -> T>(f: F, x: T) -> bool { exists|i: usize| #[trigger] call_ensures(f, (i,), x) }
/// levels.map(f)
pub fn mapped<T, F: FnMut(usize) -> T>(levels: core::ops::Range<usize>, f: F) -> (m: core::iter::Map<core::ops::Range<usize>, F>)
    requires levels.start <= levels.end, forall|i: usize| #[trigger] call_requires(f, (i,))
    ensures
        m.obeys_prophetic_iter_laws(), m.decrease() is Some, m.remaining().len() <= levels.end - levels.start, m.will_return_none() ==> m.remaining().len() == levels.end - levels.start,
        forall|k: int| 0 <= k < m.remaining().len() ==> made(f, #[trigger] m.remaining()[k]),
{
    let m = levels.map(f);
    proof { assert(levels.remaining().len() == levels.end - levels.start); vstd::std_specs::iter::map_postcondition(levels, f, m);
        assert forall|k: int| 0 <= k < m.remaining().len() implies made(f, #[trigger] m.remaining()[k]) by { assert(call_ensures(f, (levels.remaining()[k],), m.remaining()[k])); }
    }
    m
}
pub uninterp spec fn rem<'a, T>(it: slice::Iter<'a, T>) -> Seq<&'a T>;
/// What a slice iterator has left is determined by its state.
pub broadcast axiom fn iter_state<'a, T>(it: slice::Iter<'a, T>)
    ensures #[trigger] it.remaining() == rem(it);
/// the items themselves
pub open spec fn items<'a, T>(it: slice::Iter<'a, T>) -> Seq<T> { Seq::new(rem(it).len(), |i: int| *rem(it)[i]) }

pub type Items<'a, B, K, V> = Seq<Entry<slice::Iter<'a, (K, V)>, slice::Iter<'a, Node<B, K, V>>>>;
/// the nodes the iterator at index l has left; they are at level l - 1
pub open spec fn nodes<'a, B, K, V>(s: Items<'a, B, K, V>, l: int) -> Seq<Node<B, K, V>> { items(inn(s[l])) }
/// the entries the iterators at indices below n have left
pub open spec fn below<'a, B, K, V>(s: Items<'a, B, K, V>, n: nat) -> Seq<(K, V)>
    decreases n
{
    if n == 0 { Seq::empty() } else if n == 1 { items(lf(s[0])) } else { below(s, (n - 1) as nat) + flats(nodes(s, n - 1), (n - 2) as nat) }
}
/// the entries that are still to come
pub open spec fn pend<'a, B, K, V>(s: Items<'a, B, K, V>) -> Seq<(K, V)> { below(s, s.len()) }
/// the nodes are well-formed
pub open spec fn fit<'a, B, K, V>(s: Items<'a, B, K, V>, cap: nat) -> bool {
    forall|l: int, i: int| 1 <= l < s.len() && 0 <= i < nodes(s, l).len() ==> fits((#[trigger] nodes(s, l)[i]).children, (l - 1) as nat, cap)
}
/// C17: if f accepts the bounds of the node, and of all nodes on the way to an entry below it, the entry may be tested
pub open spec fn permits<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n: Node<B, K, V>, l: nat) -> bool
//%!permit { true }
//%permit     decreases l, 1nat
//%permit { f.bounds_ok(&n.bounds) ==> permits_in::<B, K, V, Q, F>(f, n, l) }
/// ... of its children
pub open spec fn permits_in<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n: Node<B, K, V>, l: nat) -> bool
//%!permit { true }
//%permit     decreases l, 0nat
//%permit {
//%permit     if l == 0 { may_all::<B, K, V, Q, F>(f, leaf(n.children)@) }
//%permit     else { forall|i: int| 0 <= i < inner(n.children)@.len() ==> permits::<B, K, V, Q, F>(f, #[trigger] inner(n.children)@[i], (l - 1) as nat) }
//%permit }
/// the filter rejects no bounds of a node with an entry it accepts
pub open spec fn keeps<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n: Node<B, K, V>, l: nat) -> bool
    decreases l
{
    &&& (exists|i: int| 0 <= i < flat(n.children, l).len() && f.key_ok((#[trigger] flat(n.children, l)[i]).0.borrow_spec())) ==> f.bounds_ok(&n.bounds)
    &&& l > 0 ==> forall|i: int| 0 <= i < inner(n.children)@.len() ==> keeps::<B, K, V, Q, F>(f, #[trigger] inner(n.children)@[i], (l - 1) as nat)
}
pub open spec fn kept<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(s: Items<'a, B, K, V>, f: F) -> bool {
    &&& forall|l: int, i: int| 1 <= l < s.len() && 0 <= i < nodes(s, l).len() ==> keeps::<B, K, V, Q, F>(f, #[trigger] nodes(s, l)[i], (l - 1) as nat) && permits::<B, K, V, Q, F>(f, nodes(s, l)[i], (l - 1) as nat)
    &&& s.len() > 0 ==> may_all::<B, K, V, Q, F>(f, items(lf(s[0])))
}
/// C17: the entries may be tested
pub open spec fn may_all<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<(K, V)>) -> bool {
//%!permit     true
//%permit     forall|i: int| 0 <= i < s.len() ==> f.may_test((#[trigger] s[i]).0.borrow_spec())
}
/// the entries f accepts
pub open spec fn sel<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<(K, V)>) -> Seq<(K, V)> {
    s.filter(|e: (K, V)| f.key_ok(e.0.borrow_spec()))
}

// ---- weight: what is left to look at
pub open spec fn wt<B, K, V>(n: Node<B, K, V>, l: nat) -> nat
    decreases l, 0nat
{
    if l == 0 { 1 } else { 1 + wts(inner(n.children)@, (l - 1) as nat) }
}
pub open spec fn wts<B, K, V>(s: Seq<Node<B, K, V>>, l: nat) -> nat
    decreases l, 1 + s.len()
{
    if s.len() == 0 { 0 } else { wts(s.drop_last(), l) + wt(s.last(), l) }
}
pub open spec fn wbelow<'a, B, K, V>(s: Items<'a, B, K, V>, n: nat) -> nat
    decreases n
{
    if n <= 1 { 0 } else { wbelow(s, (n - 1) as nat) + wts(nodes(s, n - 1), (n - 2) as nat) }
}
pub proof fn lemma_wts_add<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat)
    ensures wts(s + t, l) == wts(s, l) + wts(t, l)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_wts_add(s, t.drop_last(), l);
    }
}
pub proof fn lemma_wts_at<B, K, V>(s: Seq<Node<B, K, V>>, k: int, l: nat)
    requires 0 <= k < s.len()
    ensures wts(s, l) >= wt(s[k], l) + wts(s.skip(k + 1), l)
{
    let one = seq![s[k]];
    assert(s =~= (s.take(k) + one) + s.skip(k + 1));
    lemma_wts_add(s.take(k) + one, s.skip(k + 1), l);
    lemma_wts_add(s.take(k), one, l);
    assert(one.drop_last() =~= Seq::empty());
    assert(wts(one, l) == wts(one.drop_last(), l) + wt(s[k], l));
}
pub open spec fn pt<'a, B, K, V>(s: Items<'a, B, K, V>, i: int) -> Items<'a, B, K, V> { s }
pub proof fn lemma_blank<'a, B, K, V>(s: Items<'a, B, K, V>, n: nat)
    requires n <= s.len(), n > 0 ==> items(lf(s[0])).len() == 0, forall|i: int| 1 <= i < n ==> nodes(#[trigger] pt(s, i), i).len() == 0
    ensures below(s, n) =~= Seq::empty()
    decreases n
{
    if n > 1 { lemma_blank(s, (n - 1) as nat); assert(nodes(pt(s, n - 1), n - 1).len() == 0); }
}
/// the stack of a new iterator
pub open spec fn rooted<'a, B, K, V>(t: Items<'a, B, K, V>, root: NodeRef<'a, B, K, V>) -> bool {
    &&& t.len() == root.level + 1
    &&& root.level == 0 ==> items(lf(t[0])) == leaf(root.node.children)@
    &&& root.level > 0 ==> items(lf(t[0])).len() == 0 && nodes(t, root.level as int) == inner(root.node.children)@ && forall|i: int| 1 <= i < root.level ==> nodes(#[trigger] pt(t, i), i).len() == 0
}
pub proof fn lemma_rooted<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(t: Items<'a, B, K, V>, root: NodeRef<'a, B, K, V>, f: F)
    requires root.wf(), rooted(t, root), stack_of(t)
    ensures
        pend(t) == flat(root.node.children, root.level as nat), forall|cap: nat| fits(root.node.children, root.level as nat, cap) ==> #[trigger] fit(t, cap),
        keeps::<B, K, V, Q, F>(f, *root.node, root.level as nat) && permits_in::<B, K, V, Q, F>(f, *root.node, root.level as nat) ==> kept::<B, K, V, Q, F>(t, f),
{
    let l = root.level as nat;
    if root.level > 0 {
        lemma_blank(t, l);
        assert(pend(t) == below(t, l) + flats(nodes(t, l as int), (l - 1) as nat));
        assert(pend(t) =~= flat(root.node.children, l));
        assert forall|cap: nat| fits(root.node.children, l, cap) implies #[trigger] fit(t, cap) by {
            assert forall|m: int, i: int| 1 <= m < t.len() && 0 <= i < nodes(t, m).len() implies fits((#[trigger] nodes(t, m)[i]).children, (m - 1) as nat, cap) by {
                if m < l { assert(nodes(pt(t, m), m).len() == 0); } else { assert(nodes(t, m)[i] == inner(root.node.children)@[i]); }
            }
        }
        if keeps::<B, K, V, Q, F>(f, *root.node, l) && permits_in::<B, K, V, Q, F>(f, *root.node, l) {
            assert forall|m: int, i: int| 1 <= m < t.len() && 0 <= i < nodes(t, m).len() implies keeps::<B, K, V, Q, F>(f, #[trigger] nodes(t, m)[i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, nodes(t, m)[i], (m - 1) as nat) by {
                if m < l { assert(nodes(pt(t, m), m).len() == 0); } else { assert(nodes(t, m)[i] == inner(root.node.children)@[i]); }
            }
        }
    }
}
pub proof fn lemma_new<'a, B, K, V>(s: Items<'a, B, K, V>, t: Items<'a, B, K, V>, root: NodeRef<'a, B, K, V>)
    requires
        root.wf(), s.len() == root.level + 1, stack_of(s), items(lf(s[0])).len() == 0, forall|i: int| 1 <= i < s.len() ==> nodes(#[trigger] pt(s, i), i).len() == 0,
        root.level == 0 ==> put_leaf(s, t, lf(t[0])) && items(lf(t[0])) =~= leaf(root.node.children)@,
        root.level > 0 ==> put_inner(s, t, root.level as int, inn(t[root.level as int])) && nodes(t, root.level as int) =~= inner(root.node.children)@,
    ensures rooted(t, root)
{
    if root.level > 0 {
        assert forall|i: int| 1 <= i < root.level implies nodes(#[trigger] pt(t, i), i).len() == 0 by { assert(nodes(pt(s, i), i).len() == 0); assert(t[i] == s[i]); }
        assert(t[0] == s[0]);
    }
}
/// every entry passes NoFilter
pub proof fn lemma_keeps_all<B, K, V>(n: Node<B, K, V>, l: nat)
    ensures keeps::<B, K, V, K, NoFilter>(NoFilter, n, l), permits::<B, K, V, K, NoFilter>(NoFilter, n, l)
    decreases l
{
    if l > 0 {
        assert forall|i: int| 0 <= i < inner(n.children)@.len() implies keeps::<B, K, V, K, NoFilter>(NoFilter, #[trigger] inner(n.children)@[i], (l - 1) as nat) && permits::<B, K, V, K, NoFilter>(NoFilter, inner(n.children)@[i], (l - 1) as nat) by { lemma_keeps_all(inner(n.children)@[i], (l - 1) as nat); }
    }
}
pub proof fn lemma_kept_all<'a, B, K, V>(s: Items<'a, B, K, V>)
    ensures kept::<B, K, V, K, NoFilter>(s, NoFilter)
{
    assert forall|l: int, i: int| 1 <= l < s.len() && 0 <= i < nodes(s, l).len() implies keeps::<B, K, V, K, NoFilter>(NoFilter, #[trigger] nodes(s, l)[i], (l - 1) as nat) && permits::<B, K, V, K, NoFilter>(NoFilter, nodes(s, l)[i], (l - 1) as nat) by { lemma_keeps_all(nodes(s, l)[i], (l - 1) as nat); }
}
pub proof fn lemma_sel_all<B, K, V>(s: Seq<(K, V)>)
    ensures sel::<B, K, V, K, NoFilter>(NoFilter, s) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_sel_all::<B, K, V>(s.drop_last()); }
    assert(sel::<B, K, V, K, NoFilter>(NoFilter, s) =~= s);
}
/// the stack of a new filtering iterator: that of the tree, or none if there is nothing to find
pub proof fn lemma_start<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(t: Items<'a, B, K, V>, root: NodeRef<'a, B, K, V>, f: F)
    requires
        root.wf(), keeps::<B, K, V, Q, F>(f, *root.node, root.level as nat), permits::<B, K, V, Q, F>(f, *root.node, root.level as nat), stack_of(t),
        t.len() == 0 && (clen(root.node.children, root.level as nat) == 0 || !f.bounds_ok(&root.node.bounds)) || rooted(t, root),
//%permit         rooted(t, root) ==> f.bounds_ok(&root.node.bounds),
    ensures
        exists|cap: nat| #[trigger] fit(t, cap), kept::<B, K, V, Q, F>(t, f), sel::<B, K, V, Q, F>(f, pend(t)) == sel::<B, K, V, Q, F>(f, flat(root.node.children, root.level as nat)),
{
    if rooted(t, root) {
        lemma_rooted::<B, K, V, Q, F>(t, root, f);
        let cap = choose|cap: nat| #[trigger] fits(root.node.children, root.level as nat, cap);
        assert(fit(t, cap));
    } else {
        assert(fit(t, 0));
        lemma_sel_none::<B, K, V, Q, F>(f, pend(t));
        lemma_sel_none::<B, K, V, Q, F>(f, flat(root.node.children, root.level as nat));
    }
}
/// What a filter owes a tree: it rejects no bounds that contain an entry it accepts.
pub open spec fn filter_law<B: Bounds, K: Bounded<B> + Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<(K, V)>) -> bool {
    forall|x: B, i: int| 0 <= i < s.len() && #[trigger] ub::<B, K>(&s[i].0).contains(x) && f.key_ok(s[i].0.borrow_spec()) ==> f.bounds_ok(&x)
}
pub proof fn lemma_keeps<B: Bounds + Clone, K: Bounded<B> + Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n: Node<B, K, V>, l: nat)
    requires law::<B, K>(), tight::<B, K, V>(n, l), filter_law::<B, K, V, Q, F>(f, flat(n.children, l))
    ensures keeps::<B, K, V, Q, F>(f, n, l)
    decreases l
{
    let s = flat(n.children, l);
    if exists|i: int| 0 <= i < s.len() && f.key_ok((#[trigger] s[i]).0.borrow_spec()) {
        let i = choose|i: int| 0 <= i < s.len() && f.key_ok((#[trigger] s[i]).0.borrow_spec());
        assert(B::up(n.bounds).contains(n.bounds));
        lemma_kub_leaf::<B, K, V>(s, n.bounds);
        assert(ub::<B, K>(&s[i].0).contains(n.bounds));
    }
    if l > 0 {
        let v = inner(n.children)@;
        let lv = (l - 1) as nat;
        assert forall|i: int| 0 <= i < v.len() implies keeps::<B, K, V, Q, F>(f, #[trigger] v[i], lv) by {
            lemma_flats_at(v, i, lv);
            let p = flats(v.take(i), lv);
            let c = flat(v[i].children, lv);
            assert forall|x: B, j: int| 0 <= j < c.len() && #[trigger] ub::<B, K>(&c[j].0).contains(x) && f.key_ok(c[j].0.borrow_spec()) implies f.bounds_ok(&x) by {
                assert(s[p.len() + j] == c[j]);
                assert(ub::<B, K>(&s[p.len() + j].0).contains(x));
            }
            lemma_keeps::<B, K, V, Q, F>(f, v[i], lv);
        }
    }
}
/// What the iterators rely on.
impl<'a, B, Key, Value, Stack> Iter<Stack>
where Stack: StackMut<L = slice::Iter<'a, (Key, Value)>, I = slice::Iter<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a {
    pub open spec fn wf(&self) -> bool { stack_of(self.stack.stk()) && exists|cap: nat| #[trigger] fit(self.stack.stk(), cap) }
    /// the entries to come
    pub open spec fn left(&self) -> Seq<(Key, Value)> { pend(self.stack.stk()) }
}
impl<'a, B, Key, Value, Stack, Q, F> FilterIter<Stack, Q, F>
where Stack: StackMut<L = slice::Iter<'a, (Key, Value)>, I = slice::Iter<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a, Key: Borrow<Q>, Q: ?Sized, F: SpatialFilter<B, Q> {
    pub open spec fn wf(&self) -> bool { self.iter.wf() && self.filter.flaw() && kept::<B, Key, Value, Q, F>(self.iter.stack.stk(), self.filter) }
    /// the entries to come
    pub open spec fn left(&self) -> Seq<(Key, Value)> { sel::<B, Key, Value, Q, F>(self.filter, pend(self.iter.stack.stk())) }
}
// ---- selection
pub proof fn lemma_sel_add<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, a: Seq<(K, V)>, b: Seq<(K, V)>)
    ensures sel::<B, K, V, Q, F>(f, a + b) == sel::<B, K, V, Q, F>(f, a) + sel::<B, K, V, Q, F>(f, b)
{
    Seq::filter_distributes_over_add(a, b, |e: (K, V)| f.key_ok(e.0.borrow_spec()));
}
pub proof fn lemma_sel_none<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<(K, V)>)
    requires forall|i: int| 0 <= i < s.len() ==> !f.key_ok((#[trigger] s[i]).0.borrow_spec())
    ensures sel::<B, K, V, Q, F>(f, s) == Seq::<(K, V)>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(!f.key_ok(s[s.len() - 1].0.borrow_spec()));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !f.key_ok((#[trigger] s.drop_last()[i]).0.borrow_spec()) by { assert(!f.key_ok(s[i].0.borrow_spec())); }
        lemma_sel_none::<B, K, V, Q, F>(f, s.drop_last());
    }
    assert(sel::<B, K, V, Q, F>(f, s) =~= Seq::<(K, V)>::empty());
}
pub proof fn lemma_sel_one<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, e: (K, V))
    requires f.key_ok(e.0.borrow_spec())
    ensures sel::<B, K, V, Q, F>(f, seq![e]) == seq![e]
{
    reveal(Seq::filter);
    let s = seq![e];
    assert(s.drop_last() =~= Seq::empty());
    assert(s.drop_last().filter(|e: (K, V)| f.key_ok(e.0.borrow_spec())) =~= Seq::empty());
    assert(sel::<B, K, V, Q, F>(f, s) =~= seq![e]);
}
/// nodes whose bounds f rejects hold nothing it accepts
pub proof fn lemma_rejected<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<Node<B, K, V>>, l: nat)
    requires forall|i: int| 0 <= i < s.len() ==> keeps::<B, K, V, Q, F>(f, #[trigger] s[i], l) && !f.bounds_ok(&s[i].bounds)
    ensures sel::<B, K, V, Q, F>(f, flats(s, l)) == Seq::<(K, V)>::empty()
    decreases s.len()
{
    if s.len() == 0 { lemma_sel_none::<B, K, V, Q, F>(f, flats(s, l)); } else {
        let n = s[s.len() - 1];
        assert(keeps::<B, K, V, Q, F>(f, n, l) && !f.bounds_ok(&n.bounds));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies keeps::<B, K, V, Q, F>(f, #[trigger] s.drop_last()[i], l) && !f.bounds_ok(&s.drop_last()[i].bounds) by { assert(s.drop_last()[i] == s[i]); }
        lemma_rejected::<B, K, V, Q, F>(f, s.drop_last(), l);
        lemma_sel_none::<B, K, V, Q, F>(f, flat(n.children, l));
        lemma_sel_add::<B, K, V, Q, F>(f, flats(s.drop_last(), l), flat(n.children, l));
        assert(sel::<B, K, V, Q, F>(f, flats(s, l)) =~= Seq::<(K, V)>::empty());
    }
}
// ---- stacks
pub proof fn lemma_below_same<'a, B, K, V>(s: Items<'a, B, K, V>, t: Items<'a, B, K, V>, n: nat)
    requires n <= s.len() == t.len(), forall|i: int| 0 <= i < n ==> s[i] == #[trigger] t[i]
    ensures below(s, n) == below(t, n), wbelow(s, n) == wbelow(t, n)
    decreases n
{
    if n > 1 { lemma_below_same(s, t, (n - 1) as nat); assert(s[n - 1] == t[n - 1]); } else if n == 1 { assert(s[0] == t[0]); }
}
/// what is above n does not matter
pub proof fn lemma_above<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Items<'a, B, K, V>, t: Items<'a, B, K, V>, n: nat, m: nat)
    requires
        1 <= n <= m <= s.len() == t.len(), forall|i: int| n <= i < m ==> s[i] == #[trigger] t[i],
        sel::<B, K, V, Q, F>(f, below(s, n)) == sel::<B, K, V, Q, F>(f, below(t, n)),
    ensures
        sel::<B, K, V, Q, F>(f, below(s, m)) == sel::<B, K, V, Q, F>(f, below(t, m)),
        wbelow(s, m) - wbelow(s, n) == wbelow(t, m) - wbelow(t, n),
    decreases m
{
    if m > n {
        lemma_above::<B, K, V, Q, F>(f, s, t, n, (m - 1) as nat);
        assert(s[m - 1] == t[m - 1]);
        lemma_sel_add::<B, K, V, Q, F>(f, below(s, (m - 1) as nat), flats(nodes(s, m - 1), (m - 2) as nat));
        lemma_sel_add::<B, K, V, Q, F>(f, below(t, (m - 1) as nat), flats(nodes(t, m - 1), (m - 2) as nat));
    }
}
pub proof fn lemma_fits_at<'a, B, K, V>(s: Items<'a, B, K, V>, l: int, i: int, cap: nat)
    requires fit(s, cap), 1 <= l < s.len(), 0 <= i < nodes(s, l).len()
    ensures fits(nodes(s, l)[i].children, (l - 1) as nat, cap)
{}
/// The k-th node of level l is taken, its children start the level below.
pub proof fn lemma_descend<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(
    f: F, s0: Items<'a, B, K, V>, s1: Items<'a, B, K, V>, s2: Items<'a, B, K, V>, s3: Items<'a, B, K, V>, l: int, k: int, cap: nat)
    requires
        1 <= l < s1.len(), stack_of(s1), put_inner(s1, s2, l, inn(s2[l])), 0 <= k < nodes(s1, l).len(), nodes(s2, l) =~= nodes(s1, l).skip(k + 1),
        forall|j: int| 0 <= j < k ==> !f.bounds_ok(&(#[trigger] nodes(s1, l)[j]).bounds),
        l == 1 ==> put_leaf(s2, s3, lf(s3[0])) && items(lf(s3[0])) =~= leaf(nodes(s1, l)[k].children)@,
        l > 1 ==> put_inner(s2, s3, l - 1, inn(s3[l - 1])) && nodes(s3, l - 1) =~= inner(nodes(s1, l)[k].children)@,
        below(s1, l as nat).len() == 0, fit(s1, cap), kept::<B, K, V, Q, F>(s1, f),
//%permit         f.bounds_ok(&nodes(s1, l)[k].bounds),
    ensures
        fit(s3, cap), forall|c: nat| #[trigger] fit(s1, c) ==> fit(s3, c), kept::<B, K, V, Q, F>(s3, f), below(s3, (l - 1) as nat).len() == 0, stack_of(s3), s3.len() == s1.len(),
        sel::<B, K, V, Q, F>(f, pend(s3)) == sel::<B, K, V, Q, F>(f, pend(s1)),
        wbelow(s3, s3.len()) < wbelow(s1, s1.len()),
{
    let v = nodes(s1, l);
    let n = v[k];
    let lv = (l - 1) as nat;
    assert forall|i: int| l < i < s1.len() implies s1[i] == #[trigger] s3[i] by { assert(s2[i] == s1[i]); }
    assert(s3[l] == s2[l]);
    assert forall|i: int| 0 <= i < l - 1 implies s1[i] == #[trigger] s3[i] by { assert(s2[i] == s1[i]); assert(s3[i] == s2[i]); }
    assert(nodes(s3, l) == nodes(s2, l));
    lemma_below_same(s1, s3, lv);
    // what is below l in s3 are the children of n
    assert(below(s1, l as nat).len() == 0);
    if l > 1 { assert(below(s1, l as nat).len() == below(s1, lv).len() + flats(nodes(s1, l - 1), (l - 2) as nat).len()); }
    assert(below(s3, lv) =~= Seq::empty());
    assert(below(s3, l as nat) =~= flat(n.children, lv));
    // up to l
    lemma_flats_at(v, k, lv);
    assert(below(s1, (l + 1) as nat) =~= flats(v, lv));
    assert(below(s3, (l + 1) as nat) =~= flat(n.children, lv) + flats(v.skip(k + 1), lv));
    let pre = v.take(k);
    assert forall|i: int| 0 <= i < pre.len() implies keeps::<B, K, V, Q, F>(f, #[trigger] pre[i], lv) && !f.bounds_ok(&pre[i].bounds) by { assert(pre[i] == v[i]); }
    lemma_rejected::<B, K, V, Q, F>(f, pre, lv);
    assert(flats(v, lv) =~= flats(pre, lv) + (flat(n.children, lv) + flats(v.skip(k + 1), lv)));
    lemma_sel_add::<B, K, V, Q, F>(f, flats(pre, lv), flat(n.children, lv) + flats(v.skip(k + 1), lv));
    assert(sel::<B, K, V, Q, F>(f, below(s1, (l + 1) as nat)) =~= sel::<B, K, V, Q, F>(f, below(s3, (l + 1) as nat)));
    lemma_above::<B, K, V, Q, F>(f, s1, s3, (l + 1) as nat, s1.len());
    // weight
    lemma_wts_at(v, k, lv);
    if l > 1 {
        assert(wt(n, lv) == 1 + wts(inner(n.children)@, (lv - 1) as nat));
        assert(wbelow(s3, l as nat) == wbelow(s3, lv) + wts(nodes(s3, l - 1), (l - 2) as nat));
    }
    assert(wbelow(s3, (l + 1) as nat) == wbelow(s3, l as nat) + wts(nodes(s3, l), lv));
    assert(wbelow(s1, (l + 1) as nat) == wbelow(s1, l as nat) + wts(nodes(s1, l), lv));
    if l > 1 { assert(wbelow(s1, l as nat) >= wbelow(s1, lv)); }
    // the parts
    assert forall|c: nat| #[trigger] fit(s1, c) implies fit(s3, c) by {
        assert(fits(n.children, lv, c));
        assert forall|m: int, i: int| 1 <= m < s3.len() && 0 <= i < nodes(s3, m).len() implies fits((#[trigger] nodes(s3, m)[i]).children, (m - 1) as nat, c) by {
            if m == l { assert(nodes(s3, m)[i] == v[i + k + 1]); } else if m == l - 1 { assert(nodes(s3, m)[i] == inner(n.children)@[i]); } else { assert(nodes(s3, m)[i] == nodes(s1, m)[i]); }
        }
    }
    assert(keeps::<B, K, V, Q, F>(f, n, lv));
    assert forall|m: int, i: int| 1 <= m < s3.len() && 0 <= i < nodes(s3, m).len() implies keeps::<B, K, V, Q, F>(f, #[trigger] nodes(s3, m)[i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, nodes(s3, m)[i], (m - 1) as nat) by {
        if m == l { assert(nodes(s3, m)[i] == v[i + k + 1]); } else if m == l - 1 { assert(nodes(s3, m)[i] == inner(n.children)@[i]); } else { assert(nodes(s3, m)[i] == nodes(s1, m)[i]); }
    }
}
/// Nothing of level l passes the filter.
pub proof fn lemma_passed<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Items<'a, B, K, V>, s1: Items<'a, B, K, V>, s2: Items<'a, B, K, V>, l: int, cap: nat)
    requires
        1 <= l < s1.len(), stack_of(s1), put_inner(s1, s2, l, inn(s2[l])), nodes(s2, l).len() == 0, forall|j: int| 0 <= j < nodes(s1, l).len() ==> !f.bounds_ok(&(#[trigger] nodes(s1, l)[j]).bounds),
        below(s1, l as nat).len() == 0, fit(s1, cap), kept::<B, K, V, Q, F>(s1, f),
    ensures
        fit(s2, cap), forall|c: nat| #[trigger] fit(s1, c) ==> fit(s2, c), kept::<B, K, V, Q, F>(s2, f), below(s2, (l + 1) as nat).len() == 0, stack_of(s2), s2.len() == s1.len(),
        sel::<B, K, V, Q, F>(f, pend(s2)) == sel::<B, K, V, Q, F>(f, pend(s1)),
        wbelow(s2, s2.len()) <= wbelow(s1, s1.len()),
{
    let v = nodes(s1, l);
    let lv = (l - 1) as nat;
    lemma_below_same(s1, s2, l as nat);
    assert(below(s2, (l + 1) as nat) =~= Seq::empty());
    assert(below(s1, (l + 1) as nat) =~= flats(v, lv));
    assert forall|i: int| 0 <= i < v.len() implies keeps::<B, K, V, Q, F>(f, #[trigger] v[i], lv) && !f.bounds_ok(&v[i].bounds) by { }
    lemma_rejected::<B, K, V, Q, F>(f, v, lv);
    lemma_sel_none::<B, K, V, Q, F>(f, Seq::<(K, V)>::empty());
    lemma_above::<B, K, V, Q, F>(f, s1, s2, (l + 1) as nat, s1.len());
    assert(wbelow(s2, (l + 1) as nat) == wbelow(s2, l as nat) + wts(nodes(s2, l), lv));
    assert(wts(nodes(s2, l), lv) == 0);
    assert forall|c: nat| #[trigger] fit(s1, c) implies fit(s2, c) by {
        assert forall|m: int, i: int| 1 <= m < s2.len() && 0 <= i < nodes(s2, m).len() implies fits((#[trigger] nodes(s2, m)[i]).children, (m - 1) as nat, c) by { assert(nodes(s2, m)[i] == nodes(s1, m)[i]); }
    }
    assert forall|m: int, i: int| 1 <= m < s2.len() && 0 <= i < nodes(s2, m).len() implies keeps::<B, K, V, Q, F>(f, #[trigger] nodes(s2, m)[i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, nodes(s2, m)[i], (m - 1) as nat) by { assert(nodes(s2, m)[i] == nodes(s1, m)[i]); }
}
/// ... no entry
pub proof fn lemma_passed_leaf<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Items<'a, B, K, V>, s1: Items<'a, B, K, V>, s2: Items<'a, B, K, V>, cap: nat)
    requires
        s1.len() > 0, stack_of(s1), put_leaf(s1, s2, lf(s2[0])), items(lf(s2[0])).len() == 0, forall|j: int| 0 <= j < items(lf(s1[0])).len() ==> !f.key_ok((#[trigger] items(lf(s1[0]))[j]).0.borrow_spec()),
        fit(s1, cap), kept::<B, K, V, Q, F>(s1, f),
    ensures
        fit(s2, cap), forall|c: nat| #[trigger] fit(s1, c) ==> fit(s2, c), kept::<B, K, V, Q, F>(s2, f), below(s2, 1).len() == 0, stack_of(s2), s2.len() == s1.len(),
        sel::<B, K, V, Q, F>(f, pend(s2)) == sel::<B, K, V, Q, F>(f, pend(s1)),
        wbelow(s2, s2.len()) <= wbelow(s1, s1.len()),
{
    lemma_sel_none::<B, K, V, Q, F>(f, items(lf(s1[0])));
    lemma_sel_none::<B, K, V, Q, F>(f, items(lf(s2[0])));
    lemma_above::<B, K, V, Q, F>(f, s1, s2, 1, s1.len());
    assert(items(lf(s2[0])) =~= items(lf(s1[0])).skip(items(lf(s1[0])).len() as int));
    lemma_leaf_same::<B, K, V, Q, F>(f, s1, s2);
}
pub proof fn lemma_leaf_same<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s1: Items<'a, B, K, V>, s2: Items<'a, B, K, V>)
    requires
        s1.len() == s2.len(), forall|i: int| 1 <= i < s1.len() ==> #[trigger] s2[i] == s1[i], kept::<B, K, V, Q, F>(s1, f),
        s1.len() > 0, exists|k: int| 0 <= k <= items(lf(s1[0])).len() && items(lf(s2[0])) =~= #[trigger] items(lf(s1[0])).skip(k),
    ensures forall|c: nat| #[trigger] fit(s1, c) ==> fit(s2, c), kept::<B, K, V, Q, F>(s2, f)
{
    assert forall|c: nat| #[trigger] fit(s1, c) implies fit(s2, c) by {
        assert forall|m: int, i: int| 1 <= m < s2.len() && 0 <= i < nodes(s2, m).len() implies fits((#[trigger] nodes(s2, m)[i]).children, (m - 1) as nat, c) by { assert(nodes(s2, m)[i] == nodes(s1, m)[i]); }
    }
    assert forall|m: int, i: int| 1 <= m < s2.len() && 0 <= i < nodes(s2, m).len() implies keeps::<B, K, V, Q, F>(f, #[trigger] nodes(s2, m)[i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, nodes(s2, m)[i], (m - 1) as nat) by { assert(nodes(s2, m)[i] == nodes(s1, m)[i]); }
}
/// The first entry of the leaf that passes is taken.
pub proof fn lemma_taken_leaf<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Items<'a, B, K, V>, s1: Items<'a, B, K, V>, s2: Items<'a, B, K, V>, e: (K, V), cap: nat)
    requires
        s1.len() > 0, stack_of(s1), put_leaf(s1, s2, lf(s2[0])),
        items(lf(s2[0])).len() < items(lf(s1[0])).len(),
        ({ let v = items(lf(s1[0])); let k = v.len() - items(lf(s2[0])).len() - 1; items(lf(s2[0])) =~= v.skip(k + 1) && v[k] == e && forall|j: int| 0 <= j < k ==> !f.key_ok((#[trigger] v[j]).0.borrow_spec()) }),
        f.key_ok(e.0.borrow_spec()), kept::<B, K, V, Q, F>(s1, f),
    ensures
        forall|c: nat| #[trigger] fit(s1, c) ==> fit(s2, c), kept::<B, K, V, Q, F>(s2, f), stack_of(s2), s2.len() == s1.len(),
        sel::<B, K, V, Q, F>(f, pend(s1)) == seq![e] + sel::<B, K, V, Q, F>(f, pend(s2)),
{
    let v = items(lf(s1[0]));
    let k = v.len() - items(lf(s2[0])).len() - 1;
    assert(items(lf(s2[0])) =~= v.skip(k + 1));
    lemma_leaf_same::<B, K, V, Q, F>(f, s1, s2);
    assert(v =~= v.take(k) + (seq![e] + v.skip(k + 1)));
    lemma_sel_none::<B, K, V, Q, F>(f, v.take(k));
    lemma_sel_one::<B, K, V, Q, F>(f, e);
    lemma_sel_add::<B, K, V, Q, F>(f, v.take(k), seq![e] + v.skip(k + 1));
    lemma_sel_add::<B, K, V, Q, F>(f, seq![e], v.skip(k + 1));
    assert(sel::<B, K, V, Q, F>(f, below(s1, 1)) =~= seq![e] + sel::<B, K, V, Q, F>(f, below(s2, 1)));
    lemma_above_one::<B, K, V, Q, F>(f, s1, s2, e, s1.len());
}
pub proof fn lemma_above_one<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Items<'a, B, K, V>, t: Items<'a, B, K, V>, e: (K, V), m: nat)
    requires
        1 <= m <= s.len() == t.len(), forall|i: int| 1 <= i < m ==> s[i] == #[trigger] t[i],
        sel::<B, K, V, Q, F>(f, below(s, 1)) == seq![e] + sel::<B, K, V, Q, F>(f, below(t, 1)),
    ensures
        sel::<B, K, V, Q, F>(f, below(s, m)) == seq![e] + sel::<B, K, V, Q, F>(f, below(t, m)),
    decreases m
{
    if m > 1 {
        lemma_above_one::<B, K, V, Q, F>(f, s, t, e, (m - 1) as nat);
        assert(s[m - 1] == t[m - 1]);
        lemma_sel_add::<B, K, V, Q, F>(f, below(s, (m - 1) as nat), flats(nodes(s, m - 1), (m - 2) as nat));
        lemma_sel_add::<B, K, V, Q, F>(f, below(t, (m - 1) as nat), flats(nodes(t, m - 1), (m - 2) as nat));
        assert(sel::<B, K, V, Q, F>(f, below(s, m)) =~= seq![e] + sel::<B, K, V, Q, F>(f, below(t, m)));
    }
}

//@ module rtree_iter from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::{NoFilter, SpatialFilter}, node::*, iter_stack::*, rtree::*, iter::*, iter};
use core::slice;
//@ only RTree::iter; RTree::filter_iter; &'a RTree<B,Key,Value> as IntoIterator
//@ rewrite iter::Iter<Box<TreeIter<B, Key, Value>>> ==> iter::Iter<TreeIter<'_, B, Key, Value>>
//@ rewrite iter::Iter<Box<TreeIter<'a, B, Key, Value>>> ==> iter::Iter<TreeIter<'a, B, Key, Value>>
//@ rewrite FilterIter<Box<TreeIter<B, Key, Value>>, Q, Filter> ==> FilterIter<TreeIter<'_, B, Key, Value>, Q, Filter>
//@ rewrite fn into_iter(self) -> Self::IntoIter ==> fn into_iter_ref(&'a self) -> iter::Iter<TreeIter<'a, B, Key, Value>>
//@ item &'a RTree<B,Key,Value> as IntoIterator
header <'a, B, Key: Bounded<B>, Value> RTree<B, Key, Value>
//@ fn &'a RTree<B,Key,Value> as IntoIterator::into_iter_ref
    requires self.fits()
    ensures res.wf(), res.left() == self.entries()
//@ fn RTree::iter
    requires self.fits()
    ensures res.wf(), res.left() == self.entries()
//@ tailbind r
        proof { lemma_all(r.stack@, NodeRef { level: self.root.level, node: &self.root.node }); }
//@ fn RTree::filter_iter
    requires self.fits(), filter.flaw(), keeps::<B, Key, Value, Q, Filter>(filter, self.root.node, self.root.level as nat), permits::<B, Key, Value, Q, Filter>(filter, self.root.node, self.root.level as nat)
    ensures res.wf(), res.left() == sel::<B, Key, Value, Q, Filter>(filter, self.entries())
//@ text
pub proof fn lemma_all<'a, B, K, V>(t: Items<'a, B, K, V>, root: NodeRef<'a, B, K, V>)
    requires root.wf(), rooted(t, root), stack_of(t)
    ensures exists|cap: nat| #[trigger] fit(t, cap), pend(t) == flat(root.node.children, root.level as nat)
{
    lemma_rooted::<B, K, V, K, NoFilter>(t, root, NoFilter);
    let cap = choose|cap: nat| #[trigger] fits(root.node.children, root.level as nat, cap);
    assert(fit(t, cap));
}
/// Sound trees can be filtered by every filter that rejects no bounds with an entry it accepts.
pub proof fn theorem_filtered<B: Bounds + Clone, K: Bounded<B> + Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(t: RTree<B, K, V>, f: F)
    requires t.sound(), law::<B, K>(), filter_law::<B, K, V, Q, F>(f, t.entries())
    ensures t.fits(), keeps::<B, K, V, Q, F>(f, t.root.node, t.root.level as nat)
{
    theorem_sound(t);
    lemma_tight::<B, K, V>(t.root.node, t.root.level as nat, t.root.alloc);
    lemma_keeps::<B, K, V, Q, F>(f, t.root.node, t.root.level as nat);
}

//%permit /// Whatever may be tested below a node whose bounds f rejects: filtered iteration needs no permission for it, so it tests none of it.
//%permit pub proof fn theorem_rejected_group<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n: Node<B, K, V>, l: nat)
//%permit     requires !f.bounds_ok(&n.bounds)
//%permit     ensures permits::<B, K, V, Q, F>(f, n, l)
//%permit {}

//@ module filters
//@ text
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::*, vector::*, filter::*, contains::Contains, intersects::Intersects, iter::filter_law, rtree::*};
/// what contains a point, and what contains a box
pub proof fn lemma_ub_point<V: Vector + Clone>(key: V, x: AABB<V>)
    requires V::vlaw(), ub::<AABB<V>, V>(&key).contains(x)
    ensures covered(key, x), ({ let b = AABB { min: key, max: key }; key.bounds_spec(&b) && box_in_box(x, b) && same(key, b.min) && same(key, b.max) })
{
    V::lek_laws();
    let b = AABB { min: key, max: key };
    assert(key.bounds_spec(&b));
    assert(AABB::<V>::up(b).contains(x));
}
pub proof fn lemma_ub_box<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>(key: SAABB<N, D>, x: SAABB<N, D>)
    requires <SVec<N, D> as Vector>::vlaw(), ub::<SAABB<N, D>, SAABB<N, D>>(&key).contains(x)
    ensures sbox_same(key, key), Bounded::<SAABB<N, D>>::bounds_spec(&key, &key), box_in_box(x, key)
{
    SVec::<N, D>::lek_laws();
    assert forall|k: int| 0 <= k < D implies le(key.min.0[k], key.min.0[k]) && le(key.max.0[k], key.max.0[k]) by { assert(key.min.lek(&key.min, k) && key.max.lek(&key.max, k)); }
    assert(Bounded::<SAABB<N, D>>::bounds_spec(&key, &key));
    assert(SAABB::<N, D>::up(key).contains(x));
}
/// A box among points
pub proof fn theorem_intersects_points<V: Vector + Clone, Val>(f: IntersectsFilter<AABB<V>>, s: Seq<(V, Val)>)
    requires V::vlaw()
    ensures SpatialFilter::<AABB<V>, V>::flaw(&f), filter_law::<AABB<V>, V, Val, V, IntersectsFilter<AABB<V>>>(f, s)
{
    assert forall|x: AABB<V>, i: int| 0 <= i < s.len() && #[trigger] ub::<AABB<V>, V>(&s[i].0).contains(x) && SpatialFilter::<AABB<V>, V>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<AABB<V>, V>::bounds_ok(&f, &x) by {
        lemma_ub_point(s[i].0, x);
        intersects_filter_keeps_points(f, s[i].0, x);
    }
}
/// The points in a box
pub proof fn theorem_contains_points<V: Vector + Clone, Val>(f: ContainsFilter<AABB<V>>, s: Seq<(V, Val)>)
    requires V::vlaw()
    ensures SpatialFilter::<AABB<V>, V>::flaw(&f), filter_law::<AABB<V>, V, Val, V, ContainsFilter<AABB<V>>>(f, s)
{
    assert forall|x: AABB<V>, i: int| 0 <= i < s.len() && #[trigger] ub::<AABB<V>, V>(&s[i].0).contains(x) && SpatialFilter::<AABB<V>, V>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<AABB<V>, V>::bounds_ok(&f, &x) by {
        lemma_ub_point(s[i].0, x);
        contains_filter_keeps_points(f, s[i].0, x);
    }
}
/// The boxes that meet a box
pub proof fn theorem_intersects_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: IntersectsFilter<SAABB<N, D>>, s: Seq<(SAABB<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw()
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SAABB<N, D>, Val, SAABB<N, D>, IntersectsFilter<SAABB<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SAABB<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_box(s[i].0, x);
        intersects_filter_keeps_boxes(f, s[i].0, s[i].0, x);
    }
}
/// The boxes in a box
pub proof fn theorem_contains_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: ContainsFilter<SAABB<N, D>>, s: Seq<(SAABB<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw(), forall|i: int| 0 <= i < s.len() ==> proper((#[trigger] s[i]).0)
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SAABB<N, D>, Val, SAABB<N, D>, ContainsFilter<SAABB<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SAABB<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_box(s[i].0, x);
        contains_filter_keeps_boxes(f, s[i].0, s[i].0, x);
    }
}
/// The boxes around a point
pub proof fn theorem_point_in_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: IntersectsFilter<SVec<N, D>>, s: Seq<(SAABB<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw()
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SAABB<N, D>, Val, SAABB<N, D>, IntersectsFilter<SVec<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SAABB<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_box(s[i].0, x);
        point_intersects_filter_keeps_boxes(f, s[i].0, s[i].0, x);
    }
}
/// ... with bounds
pub proof fn theorem_bounded_intersects_points<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: BoundedIntersectsFilter<SAABB<N, D>, SAABB<N, D>>, s: Seq<(SVec<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw(), sbox_same(f.space, f.bounds)
    ensures SpatialFilter::<SAABB<N, D>, SVec<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SVec<N, D>, Val, SVec<N, D>, BoundedIntersectsFilter<SAABB<N, D>, SAABB<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SVec<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SVec<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SVec<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_point(s[i].0, x);
        assert(exists|b: SAABB<N, D>| #![auto] same(s[i].0, b.min) && same(s[i].0, b.max) && box_in_box(x, b)); bounded_intersects_filter_keeps_points(f, s[i].0, x);
    }
}
/// ... with bounds
pub proof fn theorem_bounded_intersects_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: BoundedIntersectsFilter<SAABB<N, D>, SAABB<N, D>>, s: Seq<(SAABB<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw(), sbox_same(f.space, f.bounds)
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SAABB<N, D>, Val, SAABB<N, D>, BoundedIntersectsFilter<SAABB<N, D>, SAABB<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SAABB<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_box(s[i].0, x);
        bounded_intersects_filter_keeps_boxes(f, s[i].0, s[i].0, x);
    }
}
/// ... with bounds
pub proof fn theorem_bounded_contains_points<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: BoundedContainsFilter<SAABB<N, D>, SAABB<N, D>>, s: Seq<(SVec<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw(), sbox_same(f.space, f.bounds)
    ensures SpatialFilter::<SAABB<N, D>, SVec<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SVec<N, D>, Val, SVec<N, D>, BoundedContainsFilter<SAABB<N, D>, SAABB<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SVec<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SVec<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SVec<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_point(s[i].0, x);
        assert(exists|b: SAABB<N, D>| #![auto] same(s[i].0, b.min) && same(s[i].0, b.max) && box_in_box(x, b)); bounded_contains_filter_keeps_points(f, s[i].0, x);
    }
}
/// ... with bounds
pub proof fn theorem_bounded_contains_boxes<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize, Val>(f: BoundedContainsFilter<SAABB<N, D>, SAABB<N, D>>, s: Seq<(SAABB<N, D>, Val)>)
    requires <SVec<N, D> as Vector>::vlaw(), sbox_same(f.space, f.bounds), forall|i: int| 0 <= i < s.len() ==> proper((#[trigger] s[i]).0)
    ensures SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::flaw(&f), filter_law::<SAABB<N, D>, SAABB<N, D>, Val, SAABB<N, D>, BoundedContainsFilter<SAABB<N, D>, SAABB<N, D>>>(f, s)
{
    assert forall|x: SAABB<N, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<N, D>, SAABB<N, D>>(&s[i].0).contains(x) && SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::key_ok(&f, s[i].0.borrow_spec()) implies SpatialFilter::<SAABB<N, D>, SAABB<N, D>>::bounds_ok(&f, &x) by {
        lemma_ub_box(s[i].0, x);
        bounded_contains_filter_keeps_boxes(f, s[i].0, s[i].0, x);
    }
}
