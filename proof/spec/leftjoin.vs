//! borrowing a range of a stack mutably and writing through the borrow changes these entries of the stack and no others; a stack whose slots are all initialized is a stack of the entries in them (casts between transparent types)
//! the memory of a row's stack is fresh: make_mut_init_raw gives its callback a block no one else uses and reads the value from it afterwards (unit rcmut proves what that rests on)
//! the functions passed to map_into do not change state of their own (FnMut is Fn)
//! a clone of a join filter accepts what the filter accepts
//@ include iter.vs
//@ module inner_stack from src/iter_stack.rs
//@ uses
use super::*;
use super::std_model::*;
use super::{node::*, iter_stack::*, iter::{items, rem, iter_state, wt, wts, lemma_wts_at, lemma_wts_add}};
use core::slice;
use core::mem::ManuallyDrop;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
//@ only IterStackAllocHelper;MaybeUninitIterStack;IterStack::map_into;IterStack::init_into;IterStackAllocHelper::new;InnerIterStack;InnerIterStack::*;InnerIterStack<Leaf,Inner> as Index<usize>;InnerIterStack<Leaf,Inner> as IndexMut<usize>;IterStack<Leaf,Inner> as IndexMut<Range<NonZeroUsize>>;IterStack<Leaf,Inner> as IndexMut<RangeFrom<NonZeroUsize>>
//@ rewrite pub struct InnerIterStack<Leaf, Inner>([Entry<Leaf, Inner>]); ==> pub struct InnerIterStack<Leaf, Inner>(Vec<Entry<Leaf, Inner>>);
//@ rewrite &mut self.0[index].inner ==> md_mut(&mut self.0[index].inner)
//@ rewrite pub(crate) struct MaybeUninitIterStack<Leaf, Inner>([MaybeUninit<Entry<Leaf, Inner>>]); ==> pub struct MaybeUninitIterStack<Leaf, Inner>(pub Vec<MaybeUninit<Entry<Leaf, Inner>>>);
//@ rewrite pub(crate) unsafe fn map_into<'a, Leaf1, Inner1>( &self, map_leaf: impl FnOnce(&Leaf) -> Leaf1, mut map_inner: impl FnMut(&Inner, NonZeroUsize) -> Inner1, target: &'a mut MaybeUninitIterStack<Leaf1, Inner1>, ) -> &'a mut IterStack<Leaf1, Inner1> ==> pub(crate) fn map_into<'a, Leaf1, Inner1, F: FnOnce(&Leaf) -> Leaf1, G: Fn(&Inner, NonZeroUsize) -> Inner1>(&self, map_leaf: F, map_inner: G, target: &'a mut MaybeUninitIterStack<Leaf1, Inner1>) -> &'a mut IterStack<Leaf1, Inner1>
//@ rewrite pub(crate) unsafe fn init_into( entries: &mut MaybeUninitIterStack<Leaf, Inner>, leaf: impl FnOnce() -> Leaf, mut inner: impl FnMut(NonZeroUsize) -> Inner, ) -> &mut Self ==> pub(crate) fn init_into<F: FnOnce() -> Leaf, G: FnMut(NonZeroUsize) -> Inner>(entries: &mut MaybeUninitIterStack<Leaf, Inner>, leaf: F, inner: G) -> &mut Self
//@ rewrite assert_eq!($a, $b, $c:tt $d) ==> if !($a == $b) { no_panic(); }
//@ rewrite assert!($a, $c:tt $d) ==> if !($a) { no_panic(); }
//@ rewrite unsafe { &mut *(self.target as *mut _ as *mut IterStack<Leaf, Inner>) } ==> { self.release(); all_init(self.target) }
//@ rewrite unsafe { &mut *((&mut self.0[$a..]) as *mut _ as *mut InnerIterStack<Leaf, Inner>) } ==> cut_from_mut(&mut self.0, $a)
//@ rewrite unsafe { &mut *((&mut self.0[$a..$b]) as *mut _ as *mut InnerIterStack<Leaf, Inner>) } ==> cut_mut(&mut self.0, $a, $b)
//@ rewrite index.start ==> start
//@ rewrite index.end ==> end
//@ rewrite |i| map_inner(&self[i], i) ==> |i| map_inner(self.index(i), i)
//@ rewrite type Output = InnerIterStack<Leaf, Inner>; ==>
//@ rewrite fn index_mut(&mut self, index: Range<NonZeroUsize>) -> &mut Self::Output ==> pub fn range_mut(&mut self, start: NonZeroUsize, end: NonZeroUsize) -> &mut InnerIterStack<Leaf, Inner>
//@ rewrite fn index_mut(&mut self, index: RangeFrom<NonZeroUsize>) -> &mut Self::Output ==> pub fn range_from_mut(&mut self, start: NonZeroUsize) -> &mut InnerIterStack<Leaf, Inner>
//@ rewrite &Self::Output ==> &Inner
//@ rewrite &mut Self::Output ==> &mut Inner
//@ rewrite type Output = Inner; ==>
//@ rewrite &mut self[i] ==> self.index_mut(i)
//@ rewrite self[i] = $e; ==> *self.index_mut(i) = $e;
//@ rewrite pub(crate) fn next( &mut self, mut get_children: impl FnMut(Inner::Item) -> Inner, ) -> Option<Inner::Item> ==> pub(crate) fn next<'a, B: 'a, K: 'a, V: 'a, G: FnMut(&'a Node<B, K, V>) -> Inner>(&mut self, Ghost(h): Ghost<Hunt<B, K, V>>, get_children: G) -> Option<&'a Node<B, K, V>> where Inner: Walk<'a, Node<B, K, V>>
//@ rewrite pub(crate) fn find( &mut self, mut get_children: impl FnMut(Inner::Item) -> Inner, mut predicate: impl FnMut(&Inner::Item) -> bool, ) -> Option<Inner::Item> ==> pub(crate) fn find<'a, B: 'a, K: 'a, V: 'a, G: FnMut(&'a Node<B, K, V>) -> Inner, P: FnMut(&&'a Node<B, K, V>) -> bool>(&mut self, Ghost(h): Ghost<Hunt<B, K, V>>, get_children: G, predicate: P) -> Option<&'a Node<B, K, V>> where Inner: Walk<'a, Node<B, K, V>>
//@ rewrite where Inner: Iterator, ==>
//@ rewrite iter.next() ==> iter.next_item()
//@ rewrite iter.find(&mut predicate) ==> find_in(iter, &mut test)
//@ rewrite get_children(child) ==> get(child)
//@ item MaybeUninitIterStack
attr #[verifier::reject_recursive_types(Leaf)]
attr #[verifier::reject_recursive_types(Inner)]
//@ item InnerIterStack
attr #[verifier::reject_recursive_types(Leaf)]
attr #[verifier::reject_recursive_types(Inner)]
//@ item InnerIterStack<Leaf,Inner> as Index<usize>
header <Leaf, Inner> InnerIterStack<Leaf, Inner>
//@ item InnerIterStack<Leaf,Inner> as IndexMut<usize>
header <Leaf, Inner> InnerIterStack<Leaf, Inner>
//@ item IterStack<Leaf,Inner> as IndexMut<Range<NonZeroUsize>>
header <Leaf, Inner> IterStack<Leaf, Inner>
//@ item IterStack<Leaf,Inner> as IndexMut<RangeFrom<NonZeroUsize>>
header <Leaf, Inner> IterStack<Leaf, Inner>
//@ fn IterStack<Leaf,Inner> as IndexMut<Range<NonZeroUsize>>::range_mut
    requires start@ <= end@ <= old(self)@.len(), stack_of(old(self)@)
    ensures res@ == old(self)@.subrange(start@ as int, end@ as int), inners(res@), final(res)@.len() == end@ - start@ ==> final(self)@ == spliced(old(self)@, final(res)@, start@ as int, end@ as int)
//@ fn IterStack<Leaf,Inner> as IndexMut<RangeFrom<NonZeroUsize>>::range_from_mut
    requires start@ <= old(self)@.len(), stack_of(old(self)@)
    ensures res@ == old(self)@.subrange(start@ as int, old(self)@.len() as int), inners(res@), final(res)@.len() == old(self)@.len() - start@ ==> final(self)@ == spliced(old(self)@, final(res)@, start@ as int, old(self)@.len() as int)
//@ fn IterStackAllocHelper::new
    ensures res.0 == len
//@ fn IterStack::init_into
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires old(entries).0@.len() > 0 ==> call_requires(leaf, ()), forall|j: NonZeroUsize| 1 <= j@ < old(entries).0@.len() ==> #[trigger] call_requires(inner, (j,))
    ensures
        res@.len() == old(entries).0@.len(), stack_of(res@), res@.len() > 0 ==> call_ensures(leaf, (), lf(res@[0])),
        forall|i: int| 1 <= i < res@.len() ==> made(inner, i, inn(#[trigger] res@[i])),
        final(res)@.len() == res@.len() ==> holds(final(entries).0@, final(res)@),
//@ lift struct Guard<'a, Leaf, Inner> { $b } ==>
    #[verifier::reject_recursive_types(Leaf)]
    #[verifier::reject_recursive_types(Inner)]
    struct Guard<'a, Leaf, Inner> { $b }
//@ lift impl<'a, Leaf, Inner> Guard<'a, Leaf, Inner> { fn len(&self) -> usize { $a } fn push(&mut self, entry: Entry<Leaf, Inner>) { $b } fn finish(mut self) -> &'a mut IterStack<Leaf, Inner> { $c } } ==>
    impl<'a, Leaf, Inner> Guard<'a, Leaf, Inner> {
        fn len(&self) -> (res: usize)
            ensures res == old(self.target).0@.len()
        { $a }
        fn push(&mut self, entry: Entry<Leaf, Inner>)
            requires old(self).i < old(self).target.0@.len()
            ensures
                final(self).i == old(self).i + 1, final(self).target.0@ == old(self).target.0@.update(old(self).i as int, MaybeUninit(Some(entry))),
                *final(final(self).target) == *final(old(self).target),
        { $b }
        fn finish(self) -> (res: &'a mut IterStack<Leaf, Inner>)
            requires self.i == self.target.0@.len(), forall|i: int| 0 <= i < self.i ==> (#[trigger] self.target.0@[i]).0 is Some
            ensures holds(old(self.target).0@, res@), final(res)@.len() == res@.len() ==> holds((*final(self.target)).0@, final(res)@)
        { let mut this = self; $c~this }
    }
//@ lift impl<Leaf, Inner> Drop for Guard<'_, Leaf, Inner> { fn drop(&mut self) { for i in 0..self.i { $b } } } ==>
    impl<Leaf, Inner> Guard<'_, Leaf, Inner> {
        /// what the compiler runs when a guard is dropped
        #[verifier::loop_isolation(false)]
        fn release(&mut self)
            requires old(self).i <= old(self).target.0@.len(), forall|i: int| 0 <= i < old(self).i ==> (#[trigger] old(self).target.0@[i]).0 is Some
            ensures final(self).i == old(self).i, old(self).i == 0 ==> *final(self).target == *old(self).target, *final(final(self).target) == *final(old(self).target)
        {
            let ghost n = self.i;
            for i in 0..self.i
                invariant
                    self.i == n, n <= self.target.0@.len(), n == 0 ==> *self.target == *old(self).target, *final(self.target) == *final(old(self).target),
                    forall|k: int| i <= k < n ==> (#[trigger] self.target.0@[k]).0 is Some,
            { $b }
        }
    }
//@ loop 0
            invariant
                forall|j: NonZeroUsize| 1 <= j@ < old(entries).0@.len() ==> #[trigger] call_requires(inner, (j,)),
                inner == f0, _guard.i == i, _guard.target.0@.len() == old(entries).0@.len(), _guard.target.0@[0].0 is Some, *final(_guard.target) == *final(g0.target),
                is_variant(_guard.target.0@[0].0->Some_0, "leaf"), call_ensures(leaf, (), lf(_guard.target.0@[0].0->Some_0)),
                forall|k: int| 1 <= k < i ==> (#[trigger] _guard.target.0@[k]).0 is Some && is_variant(_guard.target.0@[k].0->Some_0, "inner") && made(f0, k, inn(_guard.target.0@[k].0->Some_0)),
//@ start
        let ghost f0 = inner;
        let mut inner = inner;
//@ before if _guard.len() > 0
        let ghost g0 = _guard;
//@ before _guard.finish()
        let ghost t = _guard.target.0@;
//@ tailbind r
        proof { assert forall|i: int| 0 <= i < r@.len() implies #[trigger] r@[i] == t[i].0->Some_0 by {} }
//@ fn IterStack::map_into
    requires stack_of(self@), old(target).0@.len() == self@.len(), self@.len() > 0 ==> call_requires(map_leaf, (&lf(self@[0]),)), forall|i: int, j: NonZeroUsize| 1 <= i < self@.len() ==> #[trigger] call_requires(map_inner, (&inn(self@[i]), j))
    ensures
        res@.len() == self@.len(), stack_of(res@), self@.len() > 0 ==> call_ensures(map_leaf, (&lf(self@[0]),), lf(res@[0])),
        forall|i: int| 1 <= i < self@.len() ==> told(map_inner, inn(#[trigger] self@[i]), inn(res@[i])),
        final(res)@.len() == res@.len() ==> holds(final(target).0@, final(res)@),
//@ closure 0 | | -> (r: Leaf1)
    requires self@.len() > 0
    ensures call_ensures(map_leaf, (&lf(self@[0]),), r)
//@ closure 1 | i: NonZeroUsize | -> (r: Inner1)
    requires 1 <= i@ < self@.len()
    ensures call_ensures(map_inner, (&inn(self@[i@ as int]), i), r)
//@ tailbind r
        proof {
            assert forall|i: int| 1 <= i < self@.len() implies told(map_inner, inn(#[trigger] self@[i]), inn(r@[i])) by { let x = r@[i]; assert(inn(x) == inn(r@[i])); }
        }
//@ fn InnerIterStack::len
    ensures res == self@.len()
//@ fn InnerIterStack<Leaf,Inner> as Index<usize>::index
    requires index < self@.len(), inners(self@)
    ensures *res == inn(self@[index as int])
//@ fn InnerIterStack<Leaf,Inner> as IndexMut<usize>::index_mut
    requires index < old(self)@.len(), inners(old(self)@)
    ensures *res == inn(old(self)@[index as int]), put_at(old(self)@, final(self)@, index as int, *final(res))
//@ fn InnerIterStack::next
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        inners(old(self)@), walks::<B, K, V, Leaf, Inner>(h, old(self)@), fines(h, views::<B, K, V, Leaf, Inner>(old(self)@), h.base), h.ok == all_ok::<K, V>(),
        starts::<B, K, V, Inner, G>(get_children),
//%permit         h.perm == all_perm::<B, K, V>(),
    ensures
        inners(final(self)@), walks::<B, K, V, Leaf, Inner>(h, final(self)@), final(self)@.len() == old(self)@.len(), fines(h, views::<B, K, V, Leaf, Inner>(final(self)@), h.base), top_kept::<B, K, V, Leaf, Inner>(old(self)@, final(self)@),
        res is None ==> forall|i: int| 0 <= i < final(self)@.len() ==> (#[trigger] views::<B, K, V, Leaf, Inner>(final(self)@)[i]).len() == 0,
        res is None ==> hunted(h, tot(views::<B, K, V, Leaf, Inner>(old(self)@), h.base), Multiset::empty(), Multiset::empty()),
        res is Some ==> fine(h, *res->Some_0, h.base) && hunted(h, tot(views::<B, K, V, Leaf, Inner>(old(self)@), h.base), bag(res->Some_0.children, h.base), tot(views::<B, K, V, Leaf, Inner>(final(self)@), h.base)),
        res is Some ==> wtot(views::<B, K, V, Leaf, Inner>(final(self)@), h.base) + wt(*res->Some_0, h.base) <= wtot(views::<B, K, V, Leaf, Inner>(old(self)@), h.base),
//@ start
        let mut get = get_children;
        let ghost s0 = self@;
        let ghost v0 = views::<B, K, V, Leaf, Inner>(s0);
        let ghost l0 = h.base;
//@ loop 0
            invariant
                get == get_children, starts::<B, K, V, Inner, G>(get), inners(self@), walks::<B, K, V, Leaf, Inner>(h, self@), self@.len() == s0.len(), i <= s0.len(), l0 == h.base, s0 == old(self)@,
                fines(h, views::<B, K, V, Leaf, Inner>(self@), l0), top_kept::<B, K, V, Leaf, Inner>(s0, self@), h.ok == all_ok::<K, V>(),
                forall|j: int| 0 <= j < i ==> (#[trigger] views::<B, K, V, Leaf, Inner>(self@)[j]).len() == 0,
                hunted(h, tot(v0, l0), tot(views::<B, K, V, Leaf, Inner>(self@), l0), Multiset::empty()), v0 == views::<B, K, V, Leaf, Inner>(s0),
                wtot(views::<B, K, V, Leaf, Inner>(self@), l0) <= wtot(v0, l0),
            decreases wtot(views::<B, K, V, Leaf, Inner>(self@), l0), s0.len() - i
//@ loopstart 0
            let ghost s1 = self@;
            let ghost v1 = views::<B, K, V, Leaf, Inner>(s1);
            let ghost ii = i as int;
//@ before return Some(child);
                    proof { lemma_take(h, v1, views::<B, K, V, Leaf, Inner>(self@), l0, ii, 0); }
//@ before i -= 1;
                let ghost v2 = views::<B, K, V, Leaf, Inner>(self@);
                proof { lemma_take(h, v1, v2, l0, ii, 0); }
//@ after *self.index_mut(i) = get(child);
                proof {
                    assert(v2[ii - 1] == v1[ii - 1]);
                    lemma_put(h, v1, v2, views::<B, K, V, Leaf, Inner>(self@), l0, ii, *child);
                    assert forall|j: int| 0 <= j < i implies (#[trigger] views::<B, K, V, Leaf, Inner>(self@)[j]).len() == 0 by { assert(v1[j].len() == 0); }
                }
//@ before i += 1;
                proof { assert(views::<B, K, V, Leaf, Inner>(self@) =~= v1); assert(v1[ii].len() == 0); }
//@ tail
        proof { lemma_over(h, views::<B, K, V, Leaf, Inner>(self@), l0); }
//@ fn InnerIterStack::find
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        inners(old(self)@), walks::<B, K, V, Leaf, Inner>(h, old(self)@), fines(h, views::<B, K, V, Leaf, Inner>(old(self)@), h.base), starts::<B, K, V, Inner, G>(get_children),
        forall|n: &&'a Node<B, K, V>| #[trigger] call_requires(predicate, (n,)), forall|n: &&'a Node<B, K, V>| #[trigger] call_ensures(predicate, (n,), false) ==> shunned(h, **n),
//%permit         opens_below(h, predicate),
    ensures
//%permit         res is Some ==> taken_up(predicate, *res->Some_0),
        inners(final(self)@), walks::<B, K, V, Leaf, Inner>(h, final(self)@), final(self)@.len() == old(self)@.len(), fines(h, views::<B, K, V, Leaf, Inner>(final(self)@), h.base), top_kept::<B, K, V, Leaf, Inner>(old(self)@, final(self)@),
        res is None ==> forall|i: int| 0 <= i < final(self)@.len() ==> (#[trigger] views::<B, K, V, Leaf, Inner>(final(self)@)[i]).len() == 0,
        res is None ==> hunted(h, tot(views::<B, K, V, Leaf, Inner>(old(self)@), h.base), Multiset::empty(), Multiset::empty()),
        res is Some ==> fine(h, *res->Some_0, h.base) && hunted(h, tot(views::<B, K, V, Leaf, Inner>(old(self)@), h.base), bag(res->Some_0.children, h.base), tot(views::<B, K, V, Leaf, Inner>(final(self)@), h.base)),
//@ start
        let mut get = get_children;
        let mut test = predicate;
        let ghost s0 = self@;
        let ghost v0 = views::<B, K, V, Leaf, Inner>(s0);
        let ghost l0 = h.base;
//@ loop 0
            invariant
                get == get_children, test == predicate, starts::<B, K, V, Inner, G>(get), inners(self@), walks::<B, K, V, Leaf, Inner>(h, self@), self@.len() == s0.len(), i <= s0.len(), l0 == h.base, s0 == old(self)@,
//%permit                 opens_below(h, predicate),
                forall|n: &&'a Node<B, K, V>| #[trigger] call_requires(predicate, (n,)), forall|n: &&'a Node<B, K, V>| #[trigger] call_ensures(predicate, (n,), false) ==> shunned(h, **n),
                fines(h, views::<B, K, V, Leaf, Inner>(self@), l0), top_kept::<B, K, V, Leaf, Inner>(s0, self@),
                forall|j: int| 0 <= j < i ==> (#[trigger] views::<B, K, V, Leaf, Inner>(self@)[j]).len() == 0,
                hunted(h, tot(v0, l0), tot(views::<B, K, V, Leaf, Inner>(self@), l0), Multiset::empty()), v0 == views::<B, K, V, Leaf, Inner>(s0),
            decreases wtot(views::<B, K, V, Leaf, Inner>(self@), l0), s0.len() - i
//@ loopstart 0
            let ghost s1 = self@;
            let ghost v1 = views::<B, K, V, Leaf, Inner>(s1);
            let ghost ii = i as int;
//@ before return Some(child);
                    let ghost v2 = views::<B, K, V, Leaf, Inner>(self@);
                    proof { lemma_take(h, v1, v2, l0, ii, v1[ii].len() - v2[ii].len() - 1); }
//@ before i -= 1;
                let ghost v2 = views::<B, K, V, Leaf, Inner>(self@);
                proof { lemma_take(h, v1, v2, l0, ii, v1[ii].len() - v2[ii].len() - 1); }
//@ after *self.index_mut(i) = get(child);
                proof {
                    assert(v2[ii - 1] == v1[ii - 1]);
//%permit                     assert(below_ok(h, *child, l0 + ii as nat));
                    lemma_put(h, v1, v2, views::<B, K, V, Leaf, Inner>(self@), l0, ii, *child);
                    assert forall|j: int| 0 <= j < i implies (#[trigger] views::<B, K, V, Leaf, Inner>(self@)[j]).len() == 0 by { assert(v1[j].len() == 0); }
                }
//@ before i += 1;
                proof {
                    lemma_pass(h, v1, views::<B, K, V, Leaf, Inner>(self@), l0, ii);
                    assert forall|j: int| 0 <= j < ii + 1 implies (#[trigger] views::<B, K, V, Leaf, Inner>(self@)[j]).len() == 0 by { if j < ii { assert(v1[j].len() == 0); } }
                }
//@ tail
        proof { lemma_over(h, views::<B, K, V, Leaf, Inner>(self@), l0); }
//@ endfn
//@ text
/// core::mem::MaybeUninit
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T>(pub Option<T>);
impl<T> MaybeUninit<T> {
    pub fn uninit() -> (r: Self)
        ensures r.0 is None
    { MaybeUninit(None) }
    pub fn write(&mut self, x: T)
        ensures final(self).0 == Some(x)
    { self.0 = Some(x); }
    pub fn assume_init_drop(&mut self)
        requires old(self).0 is Some
        ensures final(self).0 is None
    { self.0 = None; }
}
/// the slots of s are initialized with the entries of t
pub open spec fn holds<L, I>(s: Seq<MaybeUninit<Entry<L, I>>>, t: Seq<Entry<L, I>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] s[i]).0 == Some(t[i])
}
/// y is what f makes of x
pub open spec fn told<A, I, G: Fn(&A, NonZeroUsize) -> I>(f: G, x: A, y: I) -> bool { exists|j: NonZeroUsize| #[trigger] call_ensures(f, (&x, j), y) }
/// x is what f makes for i
pub open spec fn made<I, G: FnMut(NonZeroUsize) -> I>(f: G, i: int, x: I) -> bool { exists|j: NonZeroUsize| j@ == i && #[trigger] call_ensures(f, (j,), x) }
/// a stack of slots that are all initialized is a stack of entries (both are transparent over their slice)
#[verifier::external_body]
fn all_init<L, I>(s: &mut MaybeUninitIterStack<L, I>) -> (r: &mut IterStack<L, I>)
    requires forall|i: int| 0 <= i < old(s).0@.len() ==> (#[trigger] old(s).0@[i]).0 is Some
    ensures holds(old(s).0@, r@), final(r)@.len() == r@.len() ==> holds(final(s).0@, final(r)@)
{ unimplemented!() }
/// &mut s[a..b], as a stack of inner entries (which is transparent over its slice)
#[verifier::external_body]
fn cut_mut<L, I>(s: &mut Vec<Entry<L, I>>, a: usize, b: usize) -> (r: &mut InnerIterStack<L, I>)
    requires a <= b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == b - a ==> final(s)@ == spliced(old(s)@, final(r)@, a as int, b as int)
{ unimplemented!() }
/// &mut s[a..]
#[verifier::external_body]
fn cut_from_mut<L, I>(s: &mut Vec<Entry<L, I>>, a: usize) -> (r: &mut InnerIterStack<L, I>)
    requires a <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, old(s)@.len() as int), final(r)@.len() == old(s)@.len() - a ==> final(s)@ == spliced(old(s)@, final(r)@, a as int, old(s)@.len() as int)
{ unimplemented!() }
/// Iterator over a slice
pub trait Walk<'a, T: 'a> {
    type Item;
    spec fn inv(&self) -> bool;
    /// the items to come
    spec fn rest(&self) -> Seq<T>;
    /// the items to come after a rewind
    spec fn all(&self) -> Seq<T>;
    fn next_item(&mut self) -> (r: Option<&'a T>)
        requires old(self).inv()
        ensures
            final(self).inv(), final(self).all() == old(self).all(),
            r is None ==> old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r is Some ==> old(self).rest().len() > 0 && *r->Some_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1);
}
impl<'a, T> Walk<'a, T> for slice::Iter<'a, T> {
    type Item = &'a T;
    open spec fn inv(&self) -> bool { true }
    open spec fn rest(&self) -> Seq<T> { items(*self) }
    open spec fn all(&self) -> Seq<T> { Seq::empty() }
    fn next_item(&mut self) -> (r: Option<&'a T>) {
        broadcast use iter_state;
        let ghost s0 = items(*self);
        let r = self.next();
        proof { if r is Some { assert(items(*self) =~= s0.skip(1)); } else { assert(items(*self) =~= s0); } }
        r
    }
}
/// it.find(f)
fn find_in<'a, T: 'a, I: Walk<'a, T>, F: FnMut(&&'a T) -> bool>(it: &mut I, f: &mut F) -> (r: Option<&'a T>)
    requires old(it).inv(), forall|x: &&'a T| #[trigger] call_requires(*old(f), (x,))
    ensures
        final(it).inv(), final(it).all() == old(it).all(), *final(f) == *old(f),
        r is None ==> final(it).rest().len() == 0 && forall|j: int| 0 <= j < old(it).rest().len() ==> turned_down(*old(f), #[trigger] old(it).rest()[j]),
        r is Some ==> taken_up(*old(f), *r->Some_0),
        r is Some ==> ({
            let k = old(it).rest().len() - final(it).rest().len() - 1;
            0 <= k && old(it).rest()[k] == *r->Some_0 && final(it).rest() == old(it).rest().skip(k + 1) && forall|j: int| 0 <= j < k ==> turned_down(*old(f), #[trigger] old(it).rest()[j])
        }),
{
    let ghost all = it.rest();
    let ghost mut k = 0int;
    proof { assert(all.skip(0) =~= all); }
    loop
        invariant
            *f == *old(f), forall|x: &&'a T| #[trigger] call_requires(*old(f), (x,)), 0 <= k <= all.len(), it.inv(), it.rest() == all.skip(k), it.all() == old(it).all(),
            forall|j: int| 0 <= j < k ==> turned_down(*old(f), #[trigger] all[j]), all == old(it).rest(),
        decreases all.len() - k
    {
        match it.next_item() {
            None => { return None; }
            Some(x) => {
                proof { assert(all.skip(k).skip(1) =~= all.skip(k + 1)); }
                if f(&x) { return Some(x); }
                proof { k = k + 1; }
            }
        }
    }
}
pub open spec fn taken_up<'a, T: 'a, F: FnMut(&&'a T) -> bool>(f: F, x: T) -> bool { exists|y: &&'a T| **y == x && #[trigger] call_ensures(f, (y,), true) }
pub open spec fn turned_down<'a, T: 'a, F: FnMut(&&'a T) -> bool>(f: F, x: T) -> bool { exists|y: &&'a T| **y == x && #[trigger] call_ensures(f, (y,), false) }

/// What is looked for: the level of the first nodes, the entries wanted, and what the bounds of nodes and their entries have to do with each other.
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//%!permit pub ghost struct Hunt<B, K, V> { pub base: nat, pub cap: nat, pub cov: spec_fn(B, (K, V)) -> bool, pub ok: spec_fn((K, V)) -> bool }
//%permit pub ghost struct Hunt<B, K, V> { pub base: nat, pub cap: nat, pub cov: spec_fn(B, (K, V)) -> bool, pub ok: spec_fn((K, V)) -> bool, pub perm: spec_fn(Node<B, K, V>, nat) -> bool }
//%permit /// C17: any node
//%permit pub open spec fn all_perm<B, K, V>() -> spec_fn(Node<B, K, V>, nat) -> bool { |n: Node<B, K, V>, l: nat| true }
pub open spec fn all_ok<K, V>() -> spec_fn((K, V)) -> bool { |e: (K, V)| true }
/// each node covers its entries
pub open spec fn covered_by<B, K, V>(cov: spec_fn(B, (K, V)) -> bool, n: Node<B, K, V>, l: nat) -> bool
    decreases l
{
    &&& forall|i: int| 0 <= i < flat(n.children, l).len() ==> cov(n.bounds, #[trigger] flat(n.children, l)[i])
    &&& l > 0 ==> forall|i: int| 0 <= i < inner(n.children)@.len() ==> covered_by(cov, #[trigger] inner(n.children)@[i], (l - 1) as nat)
}
//%!permit pub open spec fn fine<B, K, V>(h: Hunt<B, K, V>, n: Node<B, K, V>, l: nat) -> bool { fits(n.children, l, h.cap) && covered_by(h.cov, n, l) }
//%permit pub open spec fn fine<B, K, V>(h: Hunt<B, K, V>, n: Node<B, K, V>, l: nat) -> bool { fits(n.children, l, h.cap) && covered_by(h.cov, n, l) && (h.perm)(n, l) }
pub open spec fn fine_all<B, K, V>(h: Hunt<B, K, V>, s: Seq<Node<B, K, V>>, l: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> fine(h, #[trigger] s[i], l) }
/// ... at levels bl, bl + 1, ...
pub open spec fn fines<B, K, V>(h: Hunt<B, K, V>, v: Seq<Seq<Node<B, K, V>>>, bl: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> fine_all(h, #[trigger] v[i], bl + i as nat) }
//%permit /// C17: what f accepts lets the children of a node be tested
//%permit pub open spec fn opens_below<'a, B: 'a, K: 'a, V: 'a, F: FnMut(&&'a Node<B, K, V>) -> bool>(h: Hunt<B, K, V>, f: F) -> bool {
//%permit     forall|n: &&'a Node<B, K, V>, l: nat| #![trigger call_ensures(f, (n,), true), fine(h, **n, l)] call_ensures(f, (n,), true) && fine(h, **n, l) && l > 0 ==> below_ok(h, **n, l)
//%permit }
//%permit pub open spec fn below_ok<B, K, V>(h: Hunt<B, K, V>, n: Node<B, K, V>, l: nat) -> bool { forall|i: int| 0 <= i < inner(n.children)@.len() ==> (h.perm)(#[trigger] inner(n.children)@[i], (l - 1) as nat) }
/// no entry that is wanted can be within its bounds
pub open spec fn shunned<B, K, V>(h: Hunt<B, K, V>, n: Node<B, K, V>) -> bool { forall|e: (K, V)| #[trigger] (h.ok)(e) ==> !(h.cov)(n.bounds, e) }
/// what is wanted of a is in b and c
pub open spec fn hunted<B, K, V>(h: Hunt<B, K, V>, a: Entries<K, V>, b: Entries<K, V>, c: Entries<K, V>) -> bool { forall|e: (K, V)| #[trigger] (h.ok)(e) ==> a.count(e) == b.count(e) + c.count(e) }

pub open spec fn inners<L, I>(s: Seq<Entry<L, I>>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_variant(#[trigger] s[i], "inner") }
/// s with m for the entries a .. b
pub open spec fn spliced<L, I>(s: Seq<Entry<L, I>>, m: Seq<Entry<L, I>>, a: int, b: int) -> Seq<Entry<L, I>> { s.take(a) + m + s.skip(b) }
/// t is s with x at k
pub open spec fn put_at<L, I>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>, k: int, x: I) -> bool {
    s.len() == t.len() && inners(t) && inn(t[k]) == x && forall|i: int| 0 <= i < s.len() && i != k ==> #[trigger] t[i] == s[i]
}
impl<L, I> InnerIterStack<L, I> {
    pub closed spec fn view(&self) -> Seq<Entry<L, I>> { self.0@ }
}
/// the nodes to come
pub open spec fn views<'a, B: 'a, K: 'a, V: 'a, L, I: Walk<'a, Node<B, K, V>>>(s: Seq<Entry<L, I>>) -> Seq<Seq<Node<B, K, V>>> { Seq::new(s.len(), |i: int| inn(s[i]).rest()) }
/// ... and after rewinds
pub open spec fn walks<'a, B: 'a, K: 'a, V: 'a, L, I: Walk<'a, Node<B, K, V>>>(h: Hunt<B, K, V>, s: Seq<Entry<L, I>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> inn(#[trigger] s[i]).inv() && fine_all(h, inn(s[i]).all(), h.base + i as nat)
}
pub open spec fn top_kept<'a, B: 'a, K: 'a, V: 'a, L, I: Walk<'a, Node<B, K, V>>>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>) -> bool { s.len() > 0 && s.len() == t.len() ==> inn(t.last()).all() == inn(s.last()).all() }
pub open spec fn starts<'a, B: 'a, K: 'a, V: 'a, I: Walk<'a, Node<B, K, V>>, G: FnMut(&'a Node<B, K, V>) -> I>(g: G) -> bool {
    &&& forall|n: &'a Node<B, K, V>| is_inner(n.children) && inner(n.children).wf() ==> #[trigger] call_requires(g, (n,))
    &&& forall|n: &'a Node<B, K, V>, r: I| #[trigger] call_ensures(g, (n,), r) ==> r.inv() && r.rest() == inner(n.children)@ && (r.all().len() == 0 || r.all() == inner(n.children)@)
}
/// the entries of nodes at levels bl, bl + 1, ...
pub open spec fn tot<B, K, V>(v: Seq<Seq<Node<B, K, V>>>, bl: nat) -> Entries<K, V>
    decreases v.len()
{
    if v.len() == 0 { Multiset::empty() } else { tot(v.drop_last(), bl).add(bags(v.last(), (bl + v.len() - 1) as nat)) }
}
pub open spec fn wtot<B, K, V>(v: Seq<Seq<Node<B, K, V>>>, bl: nat) -> nat
    decreases v.len()
{
    if v.len() == 0 { 0 } else { wtot(v.drop_last(), bl) + wts(v.last(), (bl + v.len() - 1) as nat) }
}
pub proof fn lemma_tot_add<B, K, V>(a: Seq<Seq<Node<B, K, V>>>, b: Seq<Seq<Node<B, K, V>>>, bl: nat)
    ensures tot(a + b, bl) =~= tot(a, bl).add(tot(b, bl + a.len())), wtot(a + b, bl) == wtot(a, bl) + wtot(b, bl + a.len())
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_tot_add(a, b.drop_last(), bl);
    }
}
pub proof fn lemma_tot_one<B, K, V>(s: Seq<Node<B, K, V>>, bl: nat)
    ensures tot(seq![s], bl) =~= bags(s, bl), wtot(seq![s], bl) == wts(s, bl)
{
    assert(seq![s].drop_last() =~= Seq::empty());
    assert(tot(seq![s].drop_last(), bl) =~= Multiset::empty());
    assert(wtot(seq![s].drop_last(), bl) == 0);
}
pub proof fn lemma_tot_update<B, K, V>(a: Seq<Seq<Node<B, K, V>>>, b: Seq<Seq<Node<B, K, V>>>, bl: nat, i: int)
    requires 0 <= i < a.len() == b.len(), forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == #[trigger] b[j]
    ensures
        tot(b, bl).add(bags(a[i], bl + i as nat)) =~= tot(a, bl).add(bags(b[i], bl + i as nat)),
        wtot(b, bl) + wts(a[i], bl + i as nat) == wtot(a, bl) + wts(b[i], bl + i as nat),
{
    assert(a =~= (a.take(i) + seq![a[i]]) + a.skip(i + 1));
    assert(b =~= (a.take(i) + seq![b[i]]) + a.skip(i + 1));
    lemma_tot_add(a.take(i) + seq![a[i]], a.skip(i + 1), bl);
    lemma_tot_add(a.take(i) + seq![b[i]], a.skip(i + 1), bl);
    lemma_tot_add(a.take(i), seq![a[i]], bl);
    lemma_tot_add(a.take(i), seq![b[i]], bl);
    lemma_tot_one(a[i], bl + i as nat);
    lemma_tot_one(b[i], bl + i as nat);
}
pub proof fn lemma_shunned<B, K, V>(h: Hunt<B, K, V>, s: Seq<Node<B, K, V>>, l: nat)
    requires fine_all(h, s, l), forall|i: int| 0 <= i < s.len() ==> shunned(h, #[trigger] s[i])
    ensures forall|e: (K, V)| #[trigger] (h.ok)(e) ==> bags(s, l).count(e) == 0
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        let n = s.last();
        assert(fine(h, s[s.len() - 1], l) && shunned(h, s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies fine(h, #[trigger] s.drop_last()[i], l) && shunned(h, s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_shunned(h, s.drop_last(), l);
        let f = flat(n.children, l);
        assert forall|e: (K, V)| #[trigger] (h.ok)(e) implies bags(s, l).count(e) == 0 by {
            if f.to_multiset().count(e) > 0 {
                assert(f.contains(e));
                let i = choose|i: int| 0 <= i < f.len() && f[i] == e;
                assert((h.cov)(n.bounds, f[i]));
            }
        }
        vstd::seq_lib::lemma_multiset_commutative(flats(s.drop_last(), l), f);
    } else { assert(flats(s, l) =~= Seq::empty()); }
}
/// The k-th node at index i is taken.
pub proof fn lemma_take<B, K, V>(h: Hunt<B, K, V>, a: Seq<Seq<Node<B, K, V>>>, b: Seq<Seq<Node<B, K, V>>>, bl: nat, i: int, k: int)
    requires
        fines(h, a, bl), 0 <= i < a.len() == b.len(), 0 <= k < a[i].len(), b[i] =~= a[i].skip(k + 1), forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == #[trigger] b[j],
        forall|j: int| 0 <= j < k ==> shunned(h, #[trigger] a[i][j]),
    ensures
        fines(h, b, bl), fine(h, a[i][k], bl + i as nat), hunted(h, tot(a, bl), bag(a[i][k].children, bl + i as nat), tot(b, bl)),
        wtot(b, bl) + wt(a[i][k], bl + i as nat) <= wtot(a, bl),
{
    let l = bl + i as nat;
    let s = a[i];
    assert(fine_all(h, a[i], l));
    assert(fine(h, s[k], l));
    lemma_tot_update(a, b, bl, i);
    lemma_flats_at(s, k, l);
    lemma_wts_at(s, k, l);
    assert forall|j: int| 0 <= j < s.take(k).len() implies fine(h, #[trigger] s.take(k)[j], l) && shunned(h, s.take(k)[j]) by { assert(s.take(k)[j] == s[j]); assert(shunned(h, a[i][j])); }
    lemma_shunned(h, s.take(k), l);
    assert(bags(s, l) == bags(s.take(k), l).add(bag(s[k].children, l)).add(bags(s.skip(k + 1), l)));
    assert forall|e: (K, V)| #[trigger] (h.ok)(e) implies tot(a, bl).count(e) == bag(s[k].children, l).count(e) + tot(b, bl).count(e) by {
        assert(tot(b, bl).add(bags(a[i], l)).count(e) == tot(a, bl).add(bags(b[i], l)).count(e));
        assert(b[i] == s.skip(k + 1));
    }
    assert forall|j: int| 0 <= j < b.len() implies fine_all(h, #[trigger] b[j], bl + j as nat) by {
        if j != i { assert(b[j] == a[j]); } else {
            assert forall|m: int| 0 <= m < b[j].len() implies fine(h, #[trigger] b[j][m], l) by { assert(b[j][m] == s[m + k + 1]); }
        }
    }
}
/// Its children start the level below.
pub proof fn lemma_put<B, K, V>(h: Hunt<B, K, V>, a: Seq<Seq<Node<B, K, V>>>, b: Seq<Seq<Node<B, K, V>>>, c: Seq<Seq<Node<B, K, V>>>, bl: nat, i: int, n: Node<B, K, V>)
    requires
        fines(h, b, bl), 0 < i < a.len() == b.len() == c.len(), fine(h, n, bl + i as nat), hunted(h, tot(a, bl), bag(n.children, bl + i as nat), tot(b, bl)), wtot(b, bl) + wt(n, bl + i as nat) <= wtot(a, bl),
        b[i - 1].len() == 0, c[i - 1] == inner(n.children)@, forall|j: int| 0 <= j < a.len() && j != i - 1 ==> b[j] == #[trigger] c[j],
//%permit         below_ok(h, n, bl + i as nat),
    ensures
        fines(h, c, bl), hunted(h, tot(a, bl), tot(c, bl), Multiset::empty()), wtot(c, bl) < wtot(a, bl),
{
    let l = (bl + i - 1) as nat;
    let k = inner(n.children)@;
    lemma_tot_update(b, c, bl, i - 1);
    assert(flats(b[i - 1], l) =~= Seq::empty());
    Seq::<(K, V)>::empty().to_multiset_ensures();
    assert(bags(b[i - 1], l).len() == 0);
    assert(bags(b[i - 1], l) =~= Multiset::empty());
    assert(bag(n.children, bl + i as nat) == bags(k, l));
    assert(wt(n, bl + i as nat) == 1 + wts(k, l));
    assert(wts(b[i - 1], l) == 0);
    assert forall|e: (K, V)| #[trigger] (h.ok)(e) implies tot(a, bl).count(e) == tot(c, bl).count(e) + Multiset::<(K, V)>::empty().count(e) by {
        assert(tot(c, bl).add(bags(b[i - 1], l)).count(e) == tot(b, bl).add(bags(c[i - 1], l)).count(e));
    }
    assert forall|j: int| 0 <= j < c.len() implies fine_all(h, #[trigger] c[j], bl + j as nat) by {
        if j != i - 1 { assert(b[j] == c[j]); } else {
            assert forall|m: int| 0 <= m < c[j].len() implies fine(h, #[trigger] c[j][m], l) by { assert(c[j][m] == k[m]); }
        }
    }
}
/// Nothing at index i is wanted.
pub proof fn lemma_pass<B, K, V>(h: Hunt<B, K, V>, a: Seq<Seq<Node<B, K, V>>>, b: Seq<Seq<Node<B, K, V>>>, bl: nat, i: int)
    requires
        fines(h, a, bl), 0 <= i < a.len() == b.len(), b[i].len() == 0, forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == #[trigger] b[j],
        forall|j: int| 0 <= j < a[i].len() ==> shunned(h, #[trigger] a[i][j]),
    ensures
        fines(h, b, bl), hunted(h, tot(a, bl), tot(b, bl), Multiset::empty()), wtot(b, bl) <= wtot(a, bl),
{
    let l = bl + i as nat;
    assert(fine_all(h, a[i], l));
    lemma_tot_update(a, b, bl, i);
    lemma_shunned(h, a[i], l);
    assert(fine_all(h, b[i], l));
    lemma_shunned(h, b[i], l);
    assert(wts(b[i], l) == 0);
    assert forall|e: (K, V)| #[trigger] (h.ok)(e) implies tot(a, bl).count(e) == tot(b, bl).count(e) + Multiset::<(K, V)>::empty().count(e) by {
        assert(tot(b, bl).add(bags(a[i], l)).count(e) == tot(a, bl).add(bags(b[i], l)).count(e));
    }
    assert forall|j: int| 0 <= j < b.len() implies fine_all(h, #[trigger] b[j], bl + j as nat) by { if j != i { assert(b[j] == a[j]); } }
}
/// Nothing is left.
pub proof fn lemma_over<B, K, V>(h: Hunt<B, K, V>, a: Seq<Seq<Node<B, K, V>>>, bl: nat)
    requires forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).len() == 0
    ensures tot(a, bl) == Multiset::<(K, V)>::empty(), wtot(a, bl) == 0
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|j: int| 0 <= j < a.drop_last().len() implies (#[trigger] a.drop_last()[j]).len() == 0 by { assert(a.drop_last()[j] == a[j]); }
        lemma_over(h, a.drop_last(), bl);
        assert(a[a.len() - 1].len() == 0);
        let l = (bl + a.len() - 1) as nat;
        assert(flats(a.last(), l) =~= Seq::empty());
        Seq::<(K, V)>::empty().to_multiset_ensures();
        assert(bags(a.last(), l).len() == 0);
        assert(bags(a.last(), l) =~= Multiset::empty());
        assert(tot(a, bl) =~= Multiset::empty());
    }
}

//@ module left_join from src/left_join.rs
//@ uses
use super::*;
use super::std_model::*;
use super::{bounds::{Bounds, Bounded}, filter::{JoinFilter, JoiningFilter, SpatialFilter}, node::*, iter_stack::*, inner_stack::*, util::empty_slice};
use super::iter::{TreeIter, FilterIter, Items, mapped, items, rem, iter_state, wt, wts, nodes, pend, below, fit, keeps, kept, sel};
use core::marker::PhantomData;
use core::slice;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
//@ drop MaybeUninitTreeIter
//@ rewrite Box<TreeIter<'l, BL, KeyL, ValueL>> ==> TreeIter<'l, BL, KeyL, ValueL>
//@ rewrite Box<RewindableTreeIter<'r, BR, KeyR, ValueR>> ==> RewindableTreeIter<'r, BR, KeyR, ValueR>
//@ rewrite RcMutAlloc<TreeIter<'r, BR, KeyR, ValueR>, IterStackAllocHelper> ==> StackAlloc
//@ rewrite RcMutAlloc::new_for_layout ==> StackAlloc::new_for_layout
//@ rewrite rc_mut::RcMut<TreeIter<'r, BR, KeyR, ValueR>> ==> TreeIter<'r, BR, KeyR, ValueR>
//@ rewrite fn next(&mut self) -> Option<Self::Item> ==> fn next_item(&mut self) -> Option<Self::Item>
//@ rewrite impl<'l, 'r, BL, BR, ValueL, ValueR, KeyL, KeyR, QL, QR, Filter> LeftJoinIter< ==> impl<'l, 'r, BL, BR, ValueL, ValueR, KeyL: Borrow<QL>, KeyR: Borrow<QR>, QL: Bounded<BL>, QR, Filter: JoinFilter<BL, BR, QL, QR> + Clone> LeftJoinIter<
//@ rewrite cmp::min($a, $b) ==> min($a, $b)
//@ rewrite slice::from_ref($e) ==> from_ref($e)
//@ rewrite (0..$e).map($f) ==> mapped(0..$e, $f)
//@ rewrite self.slice[self.i..].iter() ==> tail_of(self.slice, self.i).iter()
//@ rewrite left[$i] = ==> *left.index_mut($i) =
//@ rewrite right[$i] = ==> *right.index_mut($i) =
//@ rewrite stack[level] = ==> *stack.index_mut(level) =
//@ rewrite iter[i] = ==> *iter.index_mut(i) =
//@ rewrite iter[i].rewind() ==> iter.index_mut(i).rewind()
//@ rewrite node.map_or(empty_slice(), |node| unsafe { $e }) ==> match node { Some(node) => unsafe { $e }.deref(), None => empty_slice() }
//@ rewrite RewindableIter::new(unsafe { node.inner_children() }) ==> RewindableIter::new(unsafe { node.inner_children() }.deref())
//@ rewrite &mut self.left[$a..] ==> self.left.range_from_mut($a)
//@ rewrite &mut self.left[$a..$b] ==> self.left.range_mut($a, $b)
//@ rewrite &mut self.right[$a..] ==> self.right.range_from_mut($a)
//@ rewrite &mut self.right[$a..$b] ==> self.right.range_mut($a, $b)
//@ rewrite iter_left.next(|node| $e) ==> iter_left.next(Ghost(hunt_l(g, level as int)), |node| known($e))
//@ rewrite iter_right.find($a, $b,) ==> { let me = Sight { filter: &self.filter, left: LenOf(self.left.len()) }; (iter_right).find(Ghost(hunt_r(g, *node_left, level as int)), $a, $b~me) }
//@ rewrite iter_right.find($a, $b) ==> { let me = Sight { filter: &self.filter, left: LenOf(self.left.len()) }; (iter_right).find(Ghost(hunt_r(g, *node_left, level as int)), $a, $b~me) }
//@ rewrite unsafe { self.right_alloc.make_mut_init_raw(|$p:id| { self.right.map_into($f, $g, ($p as *mut $t) .as_mut() .unwrap_unchecked(),); }) } ==> { let mut slots = self.right_alloc.slots(); let r = self.right.map_into($f, $g, &mut slots); let ghost u = r@; let s = filled(slots); proof { assert(s@ =~= u) by { assert forall|i: int| 0 <= i < u.len() implies s@[i] == #[trigger] u[i] by { assert(slots.0@[i].0 == Some(u[i])); } } } s }
//@ item LeftJoinIter
attr #[verifier::reject_recursive_types(BL)]
attr #[verifier::reject_recursive_types(BR)]
attr #[verifier::reject_recursive_types(KeyL)]
attr #[verifier::reject_recursive_types(KeyR)]
attr #[verifier::reject_recursive_types(ValueL)]
attr #[verifier::reject_recursive_types(ValueR)]
attr #[verifier::reject_recursive_types(QL)]
attr #[verifier::reject_recursive_types(QR)]
attr #[verifier::reject_recursive_types(Filter)]
//@ item RewindableIter<'a,T> as Iterator
header <'a, T> Walk<'a, T> for RewindableIter<'a, T>
//@ item LeftJoinIter<'l,'r,BL,BR,KeyL,KeyR,ValueL,ValueR,QL,QR,Filter> as Iterator
header <'l, 'r, BL, BR, KeyL: Borrow<QL>, KeyR: Borrow<QR>, ValueL, ValueR, QL: ?Sized + Bounded<BL>, QR: ?Sized, Filter: JoinFilter<BL, BR, QL, QR> + Clone> Rows for LeftJoinIter<'l, 'r, BL, BR, KeyL, KeyR, ValueL, ValueR, QL, QR, Filter>
//@ fn RewindableIter::new
    ensures res.slice == slice, res.i == 0
//@ fn RewindableIter::rewind
    ensures final(self).slice == old(self).slice, final(self).i == 0
//@ fn RewindableIter::remainder_iter
    requires self.i <= self.slice@.len()
    ensures items(res) == self.slice@.skip(self.i as int)
//@ tailbind r
        proof { let it = r; assert(items(it) =~= self.slice@.skip(self.i as int)) by { broadcast use iter_state; } }
//@ in RewindableIter<'a,T> as Iterator
    open spec fn inv(&self) -> bool { self.i <= self.slice@.len() }
    open spec fn rest(&self) -> Seq<T> { self.slice@.skip(self.i as int) }
    open spec fn all(&self) -> Seq<T> { self.slice@ }
//@ fn RewindableIter<'a,T> as Iterator::next_item
//@ start
        let ghost s0 = self.slice@;
        let ghost i0 = self.i as int;
        proof { vstd::slice::axiom_spec_len(self.slice); }
//@ before Some(item)
            proof { assert(s0.skip(i0).skip(1) =~= s0.skip(i0 + 1)); }
//@ fn iterate_left_children
    requires level < old(stack)@.len(), stack_of(old(stack)@), kind(node.children, level as nat)
    ensures started_l(old(stack)@, final(stack)@, level as int, *node)
//@ start
    broadcast use iter_state;
//@ after *stack.index_mut(level) = unsafe { node.inner_children() }.iter();
        proof { assert(items(inn(stack@[level@ as int])) =~= inner(node.children)@); }
//@ after *stack.leaf_mut() = unsafe { node.leaf_children() }.iter();
        proof { assert(items(lf(stack@[0])) =~= leaf(node.children)@); }
//@ fn iterate_right_children
    requires level < old(stack)@.len(), stack_of(old(stack)@), node is Some ==> kind(node->Some_0.children, level as nat)
    ensures started_r(old(stack)@, final(stack)@, level as int, node)
//@ after stack.index_mut(level) = RewindableIter::new($e);
        proof { assert(inn(stack@[level@ as int]).slice@ =~= match node { Some(n) => inner(n.children)@, None => Seq::empty() }); }
//@ after *stack.leaf_mut() = RewindableIter::new($e);
        proof { assert(lf(stack@[0]).slice@ =~= match node { Some(n) => leaf(n.children)@, None => Seq::empty() }); }
//@ fn rewind
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires inners(old(iter)@)
    ensures rewound(old(iter)@, final(iter)@)
//@ start
    let ghost s0 = iter@;
//@ loop 0 iter it
        invariant
            0 <= it.index() <= iter@.len() == s0.len(), it.seq().len() == s0.len(), forall|j: int| 0 <= j < s0.len() ==> #[trigger] it.seq()[j] == j, inners(iter@),
            forall|j: int| 0 <= j < it.index() ==> inn(#[trigger] iter@[j]).i == 0,
            forall|j: int| 0 <= j < it.index() && j < s0.len() - 1 ==> inn(#[trigger] iter@[j]).slice@.len() == 0,
            s0.len() > 0 ==> inn(iter@.last()).slice == inn(s0.last()).slice,
//@ fn LeftJoinIter::new
    requires
        exists|g: Lj<BL, BR, KeyL, KeyR, ValueL, ValueR>| #[trigger] ready(g, root_left, root_right) && tested::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL, QR, Filter>(g, filter) && lented::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL>(g, bag(root_left.node.children, root_left.level as nat)),
    ensures res.wf(), res.filter == filter, res.left() == bag(root_left.node.children, root_left.level as nat), res.all() == bag(root_right.node.children, root_right.level as nat)
//@ start
        broadcast use iter_state;
        let ghost g = choose|g: Lj<BL, BR, KeyL, KeyR, ValueL, ValueR>| #[trigger] ready(g, root_left, root_right) && tested::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL, QR, Filter>(g, filter) && lented::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL>(g, bag(root_left.node.children, root_left.level as nat));
//@ closure 0 | _i: usize | -> (r: slice::Iter<'l, Node<BL, KeyL, ValueL>>)
    ensures items(r).len() == 0
//@ closure 1 | _i: usize | -> (r: RewindableIter<'r, Node<BR, KeyR, ValueR>>)
    ensures r.slice@.len() == 0, r.i == 0
//@ tailbind r
        proof {
            lemma_lfresh(g, root_left, root_right, r.left@, r.right@);
//%permit             lemma_pfresh(g, root_left, root_right, r.left@, r.right@);
            assert(r.with(g));
        }
//@ in LeftJoinIter<'l,'r,BL,BR,KeyL,KeyR,ValueL,ValueR,QL,QR,Filter> as Iterator
    open spec fn inv(&self) -> bool { self.wf() }
//@ fn LeftJoinIter<'l,'r,BL,BR,KeyL,KeyR,ValueL,ValueR,QL,QR,Filter> as Iterator::next_item
attr #[verifier::rlimit(40)]
    ensures
        final(self).filter == old(self).filter, final(self).all() == old(self).all(),
        res is None ==> old(self).left() == Multiset::<(KeyL, ValueL)>::empty() && final(self).left() == Multiset::<(KeyL, ValueL)>::empty(),
        res is Some ==> old(self).left() == final(self).left().insert((*res->Some_0.0.0, *res->Some_0.0.1)),
        res is Some ==> res->Some_0.1.wf() && res->Some_0.1.filter.key == res->Some_0.0.0.borrow_spec() && res->Some_0.1.filter.filter.jlaw(),
        res is Some ==> row_of(old(self).filter, *res->Some_0.0.0, res->Some_0.1.left().to_multiset(), old(self).all()),
//@ lift enum Op<'l, 'r, BL, BR, KeyL, KeyR, ValueL, ValueR> { $b } ==>
#[verifier::reject_recursive_types(BL)]
#[verifier::reject_recursive_types(BR)]
#[verifier::reject_recursive_types(KeyL)]
#[verifier::reject_recursive_types(KeyR)]
#[verifier::reject_recursive_types(ValueL)]
#[verifier::reject_recursive_types(ValueR)]
enum Op<'l, 'r, BL, BR, KeyL, KeyR, ValueL, ValueR> { $b }
//%!permit //@ rewrite Op::Descend { left, right } => { $body } ==> Op::Descend { left, right } => { let ghost s2 = self.left@; let ghost t2 = self.right@; $body proof { lemma_ldescend(g, s1, s2, self.left@, t1, t2, self.right@, l1, *left, right); } }
//%permit //@ rewrite Op::Descend { left, right } => { $body } ==> Op::Descend { left, right } => { let ghost s2 = self.left@; let ghost t2 = self.right@; $body proof { lemma_ldescend(g, s1, s2, self.left@, t1, t2, self.right@, l1, *left, right); lemma_pdescend(g, s1, s2, self.left@, t1, t2, self.right@, l1, *left, right); } }
//@ start
        hide(tot); hide(wtot); hide(wt); hide(bag); hide(bags); hide(stack_of); hide(rfm);
//%permit         hide(pjoin); hide(granted); hide(pfound); hide(kept); hide(less); hide(opens); hide(lperm);
        let ghost g = choose|g: Lj<BL, BR, KeyL, KeyR, ValueL, ValueR>| self.with(g);
        let ghost s0 = self.left@;
        let ghost t0 = self.right@;
//@ loop 0
            invariant_except_break head(g, self.left@, self.right@, level as int), level < min_height,
            invariant
                self.with(g), self.filter == old(self).filter, s0 == old(self).left@, t0 == old(self).right@, min_height == minh(self.left@, self.right@),
                lm(self.left@) == lm(s0), g.all == old(self).all(),
            ensures lm(self.left@) == Multiset::<(KeyL, ValueL)>::empty(), self.with(g), lm(self.left@) == lm(s0)
            decreases wtot(vw(self.left@), 0), min_height - level
//@ loopstart 0
            let ghost s1 = self.left@;
            let ghost t1 = self.right@;
            let ghost l1 = level as int;
//@ before if let Some(node_left) = $e { $b } else { $c }
                let ghost lb = lend(l1, s1.len(), t1.len());
                proof { lemma_left_ready(g, s1, l1, lb); assert(iter_left@ == s1.subrange(l1, lb)); }
//@ before let iter_right = if level + 1 == self.left.len() { self.right.range_from_mut($x) } else { self.right.range_mut($y) };
                    let ghost s2 = self.left@;
                    let ghost rb = lend(l1, t1.len(), s1.len());
                    proof { lemma_left_taken(g, s1, s2, iter_left@, t1, l1, lb, *node_left); }
//%permit                     proof { lemma_pready(g, s1, s2, t1, l1, *node_left); }
//%permit                     proof { lemma_popens(g, *node_left, l1); }
                    proof { lemma_right_ready(g, t1, l1, rb, *node_left); }
//@ before Op::Descend { left: node_left, right: node_right, }
//%permit                     proof { lemma_pfound(g, s1, t1, self.right@, iter_right@, l1, rb, *node_left, node_right); }
                    proof { lemma_right_found(g, s2, t1, self.right@, iter_right@, l1, rb, *node_left, node_right); }
//@ before #1 Op::Ascend
                    proof { lemma_lpassed(g, s1, self.left@, iter_left@, t1, l1, lb); }
//@ before #2 Op::Ascend
                    proof { assert(items(lf(s1[0])).len() == 0 && items(lf(self.left@[0])).len() == 0) by { broadcast use iter_state; } lemma_lpassed_leaf(g, s1, self.left@, t1); }
//@ closure 0 | node: &'l Node<BL, KeyL, ValueL> | -> (r: slice::Iter<'l, Node<BL, KeyL, ValueL>>)
    requires is_inner(node.children), inner(node.children).wf()
    ensures items(r) =~= inner(node.children)@
//@ closure 1 | node: &'r Node<BR, KeyR, ValueR> | -> (r: RewindableIter<'r, Node<BR, KeyR, ValueR>>)
    requires is_inner(node.children), inner(node.children).wf()
    ensures r.inv(), r.all() == inner(node.children)@, r.rest() =~= inner(node.children)@
//@ closure 2 | node: &&'r Node<BR, KeyR, ValueR> | -> (r: bool)
//%permit     ensures r == (g.bok)(node_left.bounds, node.bounds)
//%!permit     ensures (g.bok)(node_left.bounds, node.bounds) ==> r
//@ closure 3 | leaf: &RewindableIter<'r, (KeyR, ValueR)> | -> (r: slice::Iter<'r, (KeyR, ValueR)>)
    requires leaf.i <= leaf.slice@.len()
    ensures items(r) == leaf.rest()
//@ closure 4 | inner: &RewindableIter<'r, Node<BR, KeyR, ValueR>>, _i: NonZeroUsize | -> (r: slice::Iter<'r, Node<BR, KeyR, ValueR>>)
    requires inner.i <= inner.slice@.len()
    ensures items(r) == inner.rest()
//@ before break;
                        proof { lemma_lnone(self.left@); }
//%permit                         proof { lemma_pstill(g, s1, self.left@, t1, l1); }
//@ after rewind(iter_right);
                    proof { lemma_lrewound(g, s1, self.left@, t1, self.right@, iter_right@, l1 + 1, lend(l1 + 1, t1.len(), s1.len())); }
//%permit                     proof { lemma_prewound(g, s1, self.left@, t1, self.right@, iter_right@, l1 + 1, lend(l1 + 1, t1.len(), s1.len())); }
//@ before let stack = $e;
                    proof { assert(items(lf(s1[0])) =~= seq![(*key, *value)] + items(lf(self.left@[0]))) by { broadcast use iter_state; } lemma_ltook(g, s1, self.left@, t1, (*key, *value)); }
//%permit                     proof { lemma_ptook(g, s1, self.left@, t1, (*key, *value)); }
//@ before return Some(((key, value), $e));
                    proof {
                        lemma_below(g, t1, stack@);
                        assert forall|r: (KeyR, ValueR)| (g.ok)(*key, r.0) implies #[trigger] pend(stack@).to_multiset().count(r) == g.all.count(r) by { assert(lpm(s1, 0).count((*key, *value)) > 0); }
                        lemma_row::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL, QR, Filter>(g, self.filter, filter, t1, stack@, (*key, *value));
                        lemma_row_wf::<BL, BR, KeyR, ValueR, QL, QR, Filter>(g.hr.cap, stack, filter);
                        assert(lented::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL>(g, lm(self.left@)));
                        assert(self.with(g));
                    }
//@ text
/// what a closure of a search sees of self (the search borrows the right stack)
pub struct Sight<'f, F> { pub filter: &'f F, pub left: LenOf }
pub struct LenOf(pub usize);
impl LenOf {
    pub fn len(&self) -> (r: usize)
        ensures r == self.0
    { self.0 }
}
/// Iterator of rows, with an invariant
pub trait Rows {
    type Item;
    spec fn inv(&self) -> bool;
    fn next_item(&mut self) -> (res: Option<Self::Item>)
        requires old(self).inv()
        ensures final(self).inv();
}
/// the identity; says what is known of a slice's iterator
fn known<'a, T>(it: slice::Iter<'a, T>) -> (r: slice::Iter<'a, T>)
    ensures r == it, rem(r) == it.remaining()
{ broadcast use iter_state; it }
/// where the stacks of the rows are allocated
pub struct StackAlloc { pub helper: IterStackAllocHelper }
impl StackAlloc {
    pub fn new_for_layout(helper: IterStackAllocHelper) -> (r: Self)
        ensures r.helper == helper
    { StackAlloc { helper } }
    /// the memory make_mut_init_raw passes to its callback
    pub fn slots<L, I>(&self) -> (r: MaybeUninitIterStack<L, I>)
        ensures r.0@.len() == self.helper.0
    {
        let mut v = Vec::new();
        for i in 0..self.helper.0
            invariant v@.len() == i
        { v.push(MaybeUninit::uninit()); }
        MaybeUninitIterStack(v)
    }
}
/// the value make_mut_init_raw finds in that memory afterwards
fn filled<L, I>(s: MaybeUninitIterStack<L, I>) -> (r: IterStack<L, I>)
    requires forall|i: int| 0 <= i < s.0@.len() ==> (#[trigger] s.0@[i]).0 is Some
    ensures holds(s.0@, r@)
{
    let mut slots = s.0;
    let mut v = Vec::new();
    let ghost n = s.0@.len();
    while slots.len() > 0
        invariant
            slots@.len() + v@.len() == n, n == s.0@.len(), slots@ == s.0@.take(slots@.len() as int), forall|i: int| 0 <= i < n ==> (#[trigger] s.0@[i]).0 is Some,
            forall|i: int| 0 <= i < v@.len() ==> Some(#[trigger] v@[i]) == s.0@[slots@.len() + i].0,
        decreases slots@.len()
    {
        let ghost k = slots@.len();
        let x = slots.pop();
        proof { assert(slots@ =~= s.0@.take(k - 1)); assert(s.0@[k - 1].0 is Some); }
        match x { Some(x) => match x.0 { Some(e) => { v.insert(0, e); } None => { proof { assert(false); } } }, None => { proof { assert(false); } } }
    }
    proof { assert forall|i: int| 0 <= i < n implies (#[trigger] s.0@[i]).0 == Some(v@[i]) by {} }
    IterStack(v)
}
/// cmp::min
fn min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ if a <= b { a } else { b } }
/// slice::from_ref
#[verifier::external_body]
pub fn from_ref<T>(x: &T) -> (r: &[T])
    ensures r@ == seq![*x]
{ core::slice::from_ref(x) }
/// &s[i..]
pub fn tail_of<T>(s: &[T], i: usize) -> (r: &[T])
    requires i <= s@.len()
    ensures r@ == s@.skip(i as int)
{ &s[i..] }
pub type Rs<'a, B, K, V> = Seq<Entry<RewindableIter<'a, (K, V)>, RewindableIter<'a, Node<B, K, V>>>>;
pub open spec fn started_l<'a, B, K, V>(s: Items<'a, B, K, V>, t: Items<'a, B, K, V>, l: int, n: Node<B, K, V>) -> bool {
    &&& l == 0 ==> put_leaf(s, t, lf(t[0])) && items(lf(t[0])) == leaf(n.children)@
    &&& l > 0 ==> put_inner(s, t, l, inn(t[l])) && items(inn(t[l])) == inner(n.children)@
}
pub open spec fn started_r<'a, B, K, V>(s: Rs<'a, B, K, V>, t: Rs<'a, B, K, V>, l: int, n: Option<&'a Node<B, K, V>>) -> bool {
    &&& l == 0 ==> put_leaf(s, t, lf(t[0])) && lf(t[0]).i == 0 && lf(t[0]).slice@ == match n { Some(n) => leaf(n.children)@, None => Seq::empty() }
    &&& l > 0 ==> put_inner(s, t, l, inn(t[l])) && inn(t[l]).i == 0 && inn(t[l]).slice@ == match n { Some(n) => inner(n.children)@, None => Seq::empty() }
}
pub open spec fn rewound<'a, L, T>(s: Seq<Entry<L, RewindableIter<'a, T>>>, t: Seq<Entry<L, RewindableIter<'a, T>>>) -> bool {
    &&& s.len() == t.len() && inners(t) && forall|i: int| 0 <= i < t.len() ==> inn(#[trigger] t[i]).i == 0
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> inn(#[trigger] t[i]).slice@.len() == 0
    &&& t.len() > 0 ==> inn(t.last()).slice == inn(s.last()).slice
}
//@ endfn
//@ text
/// What the join of two trees relies on.
#[verifier::reject_recursive_types(BL)]
#[verifier::reject_recursive_types(BR)]
#[verifier::reject_recursive_types(KL)]
#[verifier::reject_recursive_types(KR)]
#[verifier::reject_recursive_types(VL)]
#[verifier::reject_recursive_types(VR)]
pub ghost struct Lj<BL, BR, KL, KR, VL, VR> {
    /// what the bounds of nodes and their entries have to do with each other, on either side
    pub hl: Hunt<BL, KL, VL>,
    pub hr: Hunt<BR, KR, VR>,
    /// the filter
    pub ok: spec_fn(KL, KR) -> bool,
    pub bok: spec_fn(BL, BR) -> bool,
//%permit     /// C17: the pair may be tested
//%permit     pub may: spec_fn(KL, KR) -> bool,
    /// the right entries
    pub all: Entries<KR, VR>,
}
/// no bounds are rejected that cover keys that are accepted
pub open spec fn lj_law<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>) -> bool {
    forall|b: BL, e: (KL, VL), c: BR, r: (KR, VR)| #[trigger] (g.hl.cov)(b, e) && #[trigger] (g.hr.cov)(c, r) && (g.ok)(e.0, r.0) ==> (g.bok)(b, c)
}
//%permit /// C17: bounds on the left that hold e are accepted with the bounds c
//%permit pub open spec fn opens<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), c: BR) -> bool { exists|b: BL| #[trigger] (g.hl.cov)(b, e) && (g.bok)(b, c) }
//%permit /// C17: if that is so for the bounds of the node, and of all nodes on the way to an entry below it, e may be tested with that entry
//%permit pub open spec fn lperm<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), n: Node<BR, KR, VR>, l: nat) -> bool
//%permit     decreases l, 1nat
//%permit { opens(g, e, n.bounds) ==> lperm_in(g, e, n, l) }
//%permit pub open spec fn lperm_in<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), n: Node<BR, KR, VR>, l: nat) -> bool
//%permit     decreases l, 0nat
//%permit {
//%permit     if l == 0 { forall|i: int| 0 <= i < leaf(n.children)@.len() ==> (g.may)(e.0, (#[trigger] leaf(n.children)@[i]).0) }
//%permit     else { forall|i: int| 0 <= i < inner(n.children)@.len() ==> lperm(g, e, #[trigger] inner(n.children)@[i], (l - 1) as nat) }
//%permit }
//%permit pub open spec fn lperm_all<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), s: Seq<Node<BR, KR, VR>>, l: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> lperm(g, e, #[trigger] s[i], l) }
//%permit pub open spec fn may_row<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), s: Seq<(KR, VR)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (g.may)(e.0, (#[trigger] s[i]).0) }
//%permit pub open spec fn allowed<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, m: Entries<KL, VL>, n: Node<BR, KR, VR>, l: nat) -> bool { forall|e: (KL, VL)| #[trigger] m.count(e) > 0 ==> lperm(g, e, n, l) }
//%permit /// what is on the right from index k on may be tested with e
//%permit pub open spec fn granted<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), t: Rs<'r, BR, KR, VR>, k: int) -> bool {
//%permit     &&& k == 0 ==> may_row(g, e, lf(t[0]).slice@)
//%permit     &&& forall|j: int| k <= j < t.len() && 1 <= j ==> lperm_all(g, e, inn(#[trigger] t[j]).slice@, (j - 1) as nat)
//%permit }
//%permit /// ... with the left entries at index k
//%permit pub open spec fn grants<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, k: int) -> bool { forall|e: (KL, VL)| #[trigger] lpm(s, k).count(e) > 0 ==> granted(g, e, t, k) }
//%permit pub open spec fn pjoin<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>) -> bool {
//%permit     &&& forall|k: int| 0 <= k < minh(s, t) - 1 ==> #[trigger] grants(g, s, t, k)
//%permit     &&& forall|e: (KL, VL)| #[trigger] lm(s).count(e) > 0 ==> lperm_all(g, e, inn(t[t.len() - 1]).slice@, (t.len() - 2) as nat)
//%permit }
/// g is about the filter f
pub open spec fn tested<BL, BR, KL: Borrow<QL>, KR: Borrow<QR>, VL, VR, QL: ?Sized, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(g: Lj<BL, BR, KL, KR, VL, VR>, f: F) -> bool {
    &&& f.jlaw() && g.ok == (|a: KL, b: KR| f.pair_ok(a.borrow_spec(), b.borrow_spec())) && g.bok == (|a: BL, b: BR| f.bounds_pair_ok(&a, &b))
//%permit     &&& g.may == (|a: KL, b: KR| f.may_pair(a.borrow_spec(), b.borrow_spec())) && forall|c: F, a: &QL, b: &QR| #[trigger] call_ensures(F::clone, (&f,), c) ==> #[trigger] c.may_pair(a, b) == f.may_pair(a, b)
    &&& forall|c: F| #[trigger] call_ensures(F::clone, (&f,), c) ==> c.jlaw() && (forall|a: &QL, b: &QR| #[trigger] c.pair_ok(a, b) == f.pair_ok(a, b)) && (forall|a: &BL, b: &BR| #[trigger] c.bounds_pair_ok(a, b) == f.bounds_pair_ok(a, b))
}
/// the bounds of the key cover the entry
pub open spec fn lent<BL, BR, KL: Borrow<QL>, KR, VL, VR, QL: ?Sized + Bounded<BL>>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL)) -> bool {
    e.0.borrow_spec().bounds_req() && forall|b: BL| #[trigger] e.0.borrow_spec().bounds_spec(&b) ==> (g.hl.cov)(b, e)
}
pub open spec fn lented<BL, BR, KL: Borrow<QL>, KR, VL, VR, QL: ?Sized + Bounded<BL>>(g: Lj<BL, BR, KL, KR, VL, VR>, m: Entries<KL, VL>) -> bool {
    QL::bdlaw() && forall|e: (KL, VL)| #[trigger] m.count(e) > 0 ==> lent::<BL, BR, KL, KR, VL, VR, QL>(g, e)
}
pub open spec fn ready<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, a: NodeRef<'l, BL, KL, VL>, b: NodeRef<'r, BR, KR, VR>) -> bool {
    &&& lj_law(g) && fine(g.hl, *a.node, a.level as nat) && fine(g.hr, *b.node, b.level as nat) && g.all == bag(b.node.children, b.level as nat)
    &&& a.level + 2 <= usize::MAX && b.level + 2 <= usize::MAX
//%permit     &&& g.hl.perm == all_perm::<BL, KL, VL>() && g.hr.perm == all_perm::<BR, KR, VR>() && allowed(g, bag(a.node.children, a.level as nat), *b.node, b.level as nat)
}
/// m are the entries of all that f accepts with k
pub open spec fn row_of<BL, BR, KL: Borrow<QL>, KR: Borrow<QR>, VR, QL: ?Sized, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR>>(f: F, k: KL, m: Entries<KR, VR>, all: Entries<KR, VR>) -> bool {
    forall|r: (KR, VR)| #[trigger] m.count(r) == if f.pair_ok(k.borrow_spec(), r.0.borrow_spec()) { all.count(r) } else { 0 }
}
/// the nodes to come, at levels 0, 1, ...
pub open spec fn vw<'a, B: 'a, K: 'a, V: 'a, L, I: Walk<'a, Node<B, K, V>>>(s: Seq<Entry<L, I>>) -> Seq<Seq<Node<B, K, V>>> { Seq::new((s.len() - 1) as nat, |i: int| inn(s[i + 1]).rest()) }
pub open spec fn minh<'l, 'r, BL, BR, KL, KR, VL, VR>(s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>) -> nat { if s.len() <= t.len() { s.len() } else { t.len() } }
/// the left entries at index l
pub open spec fn lpm<'a, B, K, V>(s: Items<'a, B, K, V>, l: int) -> Entries<K, V> { if l == 0 { items(lf(s[0])).to_multiset() } else { bags(vw(s)[l - 1], (l - 1) as nat) } }
/// all left entries to come
pub open spec fn lm<'a, B, K, V>(s: Items<'a, B, K, V>) -> Entries<K, V> { items(lf(s[0])).to_multiset().add(tot(vw(s), 0)) }
/// the right entries at index l, after a rewind
pub open spec fn rfm<'a, B, K, V>(t: Rs<'a, B, K, V>, l: int) -> Entries<K, V> { if l == 0 { lf(t[0]).slice@.to_multiset() } else { bags(inn(t[l]).slice@, (l - 1) as nat) } }
/// the right entries to come from index l on, l > 0
pub open spec fn rup<'a, B, K, V>(t: Rs<'a, B, K, V>, l: int) -> Entries<K, V> { tot(vw(t).skip(l - 1), (l - 1) as nat) }
/// the right entries a left entry at index l will be paired with
pub open spec fn scope<'a, B, K, V>(t: Rs<'a, B, K, V>, l: int) -> Entries<K, V> { rfm(t, l).add(rup(t, l + 1)) }
/// sc has all entries that are accepted with one of m
pub open spec fn served<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, m: Entries<KL, VL>, sc: Entries<KR, VR>) -> bool {
    forall|e: (KL, VL), r: (KR, VR)| #![trigger m.count(e), sc.count(r)] #![trigger m.count(e), g.all.count(r)] m.count(e) > 0 && (g.ok)(e.0, r.0) ==> sc.count(r) == g.all.count(r)
}
pub open spec fn rsound<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, t: Rs<'r, BR, KR, VR>) -> bool {
    &&& stack_of(t) && t.len() >= 2 && lf(t[0]).i == 0 && rfm(t, t.len() - 1) == g.all
//%permit     &&& g.hr.perm == all_perm::<BR, KR, VR>()
    &&& forall|l: int| 1 <= l < t.len() ==> inn(#[trigger] t[l]).i <= inn(t[l]).slice@.len() && fine_all(g.hr, inn(t[l]).slice@, (l - 1) as nat)
}
//%!permit pub open spec fn lsound<'l, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>) -> bool { stack_of(s) && s.len() >= 2 && fines(g.hl, vw(s), 0) }
//%permit pub open spec fn lsound<'l, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>) -> bool { stack_of(s) && s.len() >= 2 && fines(g.hl, vw(s), 0) && g.hl.perm == all_perm::<BL, KL, VL>() }
/// the left entries at indices from k to n will be paired with all that are accepted
pub open spec fn serving<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, k: int, n: int) -> bool {
    forall|l: int| k <= l < n ==> served(g, #[trigger] lpm(s, l), scope(t, l))
}
pub open spec fn ljoin<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>) -> bool {
    lj_law(g) && lsound(g, s) && rsound(g, t) && serving(g, s, t, 0, minh(s, t) - 1)
}
pub open spec fn lempty<'l, BL, KL, VL>(s: Items<'l, BL, KL, VL>, n: int) -> bool { (n > 0 ==> items(lf(s[0])).len() == 0) && forall|l: int| 1 <= l < n ==> items(inn(#[trigger] s[l])).len() == 0 }
/// the right iterators from index l on are at the start
pub open spec fn rew<'r, BR, KR, VR>(t: Rs<'r, BR, KR, VR>, l: int, n: int) -> bool {
    &&& l > 0 && l + 1 < n ==> inn(t[l]).i == 0
    &&& l > 0 && l + 1 == n ==> inn(t[t.len() - 1]).i == 0 && forall|m: int| l <= m < t.len() - 1 ==> inn(#[trigger] t[m]).slice@.len() == 0 && inn(t[m]).i == 0
}
pub open spec fn head<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int) -> bool { ljoin(g, s, t) && lempty(s, l) && rew(t, l, s.len() as int) }
/// the end of the left range at level l
pub open spec fn lend(l: int, n: nat, m: nat) -> int { if l + 1 == m { n as int } else { l + 1 } }
pub open spec fn hunt_l<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, l: int) -> Hunt<BL, KL, VL> { Hunt { base: (l - 1) as nat, ok: all_ok(), ..g.hl } }
pub open spec fn wanted<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, m: Entries<KL, VL>, r: (KR, VR)) -> bool { exists|e: (KL, VL)| #[trigger] m.count(e) > 0 && (g.ok)(e.0, r.0) }
pub open spec fn hunt_r<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, x: Node<BL, KL, VL>, l: int) -> Hunt<BR, KR, VR> {
//%!permit     Hunt { base: (l - 1) as nat, ok: |r: (KR, VR)| wanted(g, bag(x.children, (l - 1) as nat), r), ..g.hr }
//%permit     Hunt { base: (l - 1) as nat, ok: |r: (KR, VR)| wanted(g, bag(x.children, (l - 1) as nat), r), perm: |n: Node<BR, KR, VR>, m: nat| allowed(g, bag(x.children, (l - 1) as nat), n, m), ..g.hr }
}
impl<'l, 'r, BL, BR, KeyL: Borrow<QL>, KeyR: Borrow<QR>, ValueL, ValueR, QL: ?Sized + Bounded<BL>, QR: ?Sized, Filter: JoinFilter<BL, BR, QL, QR> + Clone> LeftJoinIter<'l, 'r, BL, BR, KeyL, KeyR, ValueL, ValueR, QL, QR, Filter> {
    pub open spec fn with(&self, g: Lj<BL, BR, KeyL, KeyR, ValueL, ValueR>) -> bool {
        &&& ljoin(g, self.left@, self.right@) && tested::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL, QR, Filter>(g, self.filter) && lented::<BL, BR, KeyL, KeyR, ValueL, ValueR, QL>(g, lm(self.left@))
        &&& self.right_alloc.helper.0 == self.right@.len()
//%permit         &&& pjoin(g, self.left@, self.right@)
    }
    pub open spec fn wf(&self) -> bool { exists|g: Lj<BL, BR, KeyL, KeyR, ValueL, ValueR>| self.with(g) }
    /// the left entries whose rows are to come
    pub open spec fn left(&self) -> Entries<KeyL, ValueL> { lm(self.left@) }
    /// the right entries
    pub open spec fn all(&self) -> Entries<KeyR, ValueR> { rfm(self.right@, self.right@.len() - 1) }
}
pub open spec fn bago<'r, B, K, V>(y: Option<&'r Node<B, K, V>>, l: nat) -> Entries<K, V> { match y { Some(y) => bag(y.children, l), None => Multiset::empty() } }
/// x was taken from the left at index l
pub open spec fn ltaken<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int, x: Node<BL, KL, VL>) -> bool {
    let m = (l - 1) as nat;
    &&& lsound(g, s2) && s2.len() == s1.len() && lm(s1) == lm(s2).add(bag(x.children, m)) && wtot(vw(s2), 0) + wt(x, m) <= wtot(vw(s1), 0)
    &&& lempty(s2, l) && served(g, bag(x.children, m), rup(t, l)) && serving(g, s2, t, l, minh(s1, t) - 1) && fine(g.hl, x, m)
//%permit     &&& less(s1, s2, l, minh(s1, t) - 1, bag(x.children, m))
}
//%permit /// of what was at the indices from l to n nothing was added; q was at l
//%permit pub open spec fn less<'l, BL, KL, VL>(s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, l: int, n: int, q: Entries<KL, VL>) -> bool {
//%permit     &&& forall|k: int, e: (KL, VL)| #![trigger lpm(s2, k).count(e)] l <= k < n && lpm(s2, k).count(e) > 0 ==> lpm(s1, k).count(e) > 0
//%permit     &&& l < n ==> forall|e: (KL, VL)| #[trigger] q.count(e) > 0 ==> lpm(s1, l).count(e) > 0
//%permit }
//%permit /// what was found on the right, and what is there now, may be tested with what is below x
//%permit pub open spec fn pfound<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, t2: Rs<'r, BR, KR, VR>, l: int, x: Node<BL, KL, VL>, y: Option<&'r Node<BR, KR, VR>>) -> bool {
//%permit     let m = (l - 1) as nat;
//%permit     &&& forall|e: (KL, VL)| #[trigger] bag(x.children, m).count(e) > 0 ==> granted(g, e, t2, l) && (y is Some ==> lperm_in(g, e, *y->Some_0, m))
//%permit     &&& forall|k: int| l <= k < minh(s1, t2) - 1 ==> #[trigger] grants(g, s1, t2, k)
//%permit     &&& forall|e: (KL, VL)| #[trigger] lm(s1).count(e) > 0 ==> lperm_all(g, e, inn(t2[t2.len() - 1]).slice@, (t2.len() - 2) as nat)
//%permit }
//%permit /// what may be tested with what is below x, at the start of the search on the right
//%permit pub proof fn lemma_pready<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int, x: Node<BL, KL, VL>)
//%permit     requires pjoin(g, s1, t), head(g, s1, t, l), 1 <= l < minh(s1, t), ltaken(g, s1, s2, t, l, x)
//%permit     ensures forall|e: (KL, VL)| #[trigger] bag(x.children, (l - 1) as nat).count(e) > 0 ==> granted(g, e, t, l)
//%permit {
//%permit     let q = bag(x.children, (l - 1) as nat);
//%permit     assert forall|e: (KL, VL)| #[trigger] q.count(e) > 0 implies granted(g, e, t, l) by {
//%permit         assert(lm(s1).count(e) > 0);
//%permit         if l < minh(s1, t) - 1 { assert(lpm(s1, l).count(e) > 0); assert(grants(g, s1, t, l)); }
//%permit         else { assert forall|j: int| l <= j < t.len() && 1 <= j implies lperm_all(g, e, inn(#[trigger] t[j]).slice@, (j - 1) as nat) by { if j < t.len() - 1 { assert(inn(t[j]).slice@.len() == 0); } } }
//%permit     }
//%permit }
//%permit /// what is accepted with the bounds of x may be opened for what is below x
//%permit pub proof fn lemma_popens<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, x: Node<BL, KL, VL>, l: int)
//%permit     requires 1 <= l, fine(g.hl, x, (l - 1) as nat)
//%permit     ensures forall|n: Node<BR, KR, VR>, m: nat| #[trigger] fine(hunt_r(g, x, l), n, m) && (g.bok)(x.bounds, n.bounds) && m > 0 ==> below_ok(hunt_r(g, x, l), n, m)
//%permit {
//%permit     let h = hunt_r(g, x, l);
//%permit     let q = bag(x.children, (l - 1) as nat);
//%permit     assert forall|n: Node<BR, KR, VR>, m: nat| #[trigger] fine(h, n, m) && (g.bok)(x.bounds, n.bounds) && m > 0 implies below_ok(h, n, m) by {
//%permit         assert(allowed(g, q, n, m));
//%permit         assert forall|i: int| 0 <= i < inner(n.children)@.len() implies (h.perm)(#[trigger] inner(n.children)@[i], (m - 1) as nat) by {
//%permit             assert forall|e: (KL, VL)| #[trigger] q.count(e) > 0 implies lperm(g, e, inner(n.children)@[i], (m - 1) as nat) by {
//%permit                 lemma_flat_cov(g.hl.cov, x, (l - 1) as nat, e);
//%permit                 assert(opens(g, e, n.bounds));
//%permit                 assert(lperm(g, e, n, m));
//%permit             }
//%permit         }
//%permit     }
//%permit }
//%permit /// less on the left needs no more
//%permit pub proof fn lemma_pstill<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int)
//%permit     requires pjoin(g, s1, t), lpassed(g, s1, s2, t, l)
//%permit     ensures pjoin(g, s2, t)
//%permit {
//%permit     assert forall|k: int| 0 <= k < minh(s2, t) - 1 implies #[trigger] grants(g, s2, t, k) by {
//%permit         assert(grants(g, s1, t, k));
//%permit         assert forall|e: (KL, VL)| #[trigger] lpm(s2, k).count(e) > 0 implies granted(g, e, t, k) by { assert(lpm(s1, k).count(e) > 0); }
//%permit     }
//%permit }
//%permit /// ... and at its end
//%permit pub proof fn lemma_psame_at<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, e: (KL, VL), t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, k: int, b: int)
//%permit     requires granted(g, e, t1, k), k >= 1, t1.len() == t2.len(), forall|j: int| k <= j < t1.len() && j != b - 1 ==> #[trigger] t2[j] == t1[j], b - 1 < t1.len(), inn(t2[b - 1]).slice@ == inn(t1[b - 1]).slice@
//%permit     ensures granted(g, e, t2, k)
//%permit {
//%permit     hide(lperm_all);
//%permit     assert forall|j: int| k <= j < t2.len() && 1 <= j implies lperm_all(g, e, inn(#[trigger] t2[j]).slice@, (j - 1) as nat) by { assert(lperm_all(g, e, inn(t1[j]).slice@, (j - 1) as nat)); if j != b - 1 { assert(t2[j] == t1[j]); } }
//%permit }
//%permit pub proof fn lemma_psame<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
//%permit     requires
//%permit         pjoin(g, s1, t1), 1 <= l < minh(s1, t1), b == lend(l, t1.len(), s1.len()), mid.len() == b - l, t2 == spliced(t1, mid, l, b), inn(mid.last()).slice@ == inn(t1.subrange(l, b).last()).slice@,
//%permit     ensures
//%permit         inn(t2[t2.len() - 1]).slice@ == inn(t1[t1.len() - 1]).slice@,
//%permit         forall|k: int| l <= k < minh(s1, t2) - 1 ==> #[trigger] grants(g, s1, t2, k),
//%permit {
//%permit     hide(granted); hide(tot); hide(bags); hide(lpm);
//%permit     lemma_splice_at(t1, t2, mid, l, b);
//%permit     let top = t1.len() - 1;
//%permit     assert(inn(t2[top]).slice@ == inn(t1[top]).slice@) by { if b <= top { assert(t2[top] == t1[top]); } }
//%permit     assert forall|k: int| l <= k < minh(s1, t2) - 1 implies #[trigger] grants(g, s1, t2, k) by {
//%permit         assert(grants(g, s1, t1, k));
//%permit         assert forall|e: (KL, VL)| #[trigger] lpm(s1, k).count(e) > 0 implies granted(g, e, t2, k) by {
//%permit             assert forall|j: int| k <= j < t1.len() && j != b - 1 implies #[trigger] t2[j] == t1[j] by {}
//%permit             lemma_psame_at(g, e, t1, t2, k, b);
//%permit         }
//%permit     }
//%permit }
//%permit pub proof fn lemma_psought<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>, e: (KL, VL))
//%permit     requires
//%permit         1 <= l < minh(s1, t1), b == lend(l, t1.len(), s1.len()), mid.len() == b - l, t2 == spliced(t1, mid, l, b), walks(hunt_r(g, x, l), mid),
//%permit         bag(x.children, (l - 1) as nat).count(e) > 0, granted(g, e, t1, l),
//%permit     ensures granted(g, e, t2, l)
//%permit {
//%permit     let h = hunt_r(g, x, l);
//%permit     lemma_splice_at(t1, t2, mid, l, b);
//%permit     assert forall|j: int| l <= j < t2.len() && 1 <= j implies lperm_all(g, e, inn(#[trigger] t2[j]).slice@, (j - 1) as nat) by {
//%permit         if j < b {
//%permit             assert(t2[j] == mid[j - l]);
//%permit             assert(fine_all(h, inn(mid[j - l]).all(), h.base + (j - l) as nat));
//%permit             assert forall|i: int| 0 <= i < inn(t2[j]).slice@.len() implies lperm(g, e, #[trigger] inn(t2[j]).slice@[i], (j - 1) as nat) by { assert(fine(h, inn(mid[j - l]).all()[i], (j - 1) as nat)); }
//%permit         } else { assert(t2[j] == t1[j]); }
//%permit     }
//%permit }
//%permit pub proof fn lemma_pmet<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, l: int, x: Node<BL, KL, VL>, y: Node<BR, KR, VR>, e: (KL, VL))
//%permit     requires
//%permit         l >= 1, fine(g.hl, x, (l - 1) as nat), bag(x.children, (l - 1) as nat).count(e) > 0, fine(hunt_r(g, x, l), y, (l - 1) as nat), (g.bok)(x.bounds, y.bounds),
//%permit     ensures lperm_in(g, e, y, (l - 1) as nat)
//%permit {
//%permit     let m = (l - 1) as nat;
//%permit     assert(allowed(g, bag(x.children, m), y, m));
//%permit     lemma_flat_cov(g.hl.cov, x, m, e);
//%permit     assert((g.hl.cov)(x.bounds, e));
//%permit     assert(opens(g, e, y.bounds));
//%permit }
//%permit pub proof fn lemma_pfound<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>, y: Option<&'r Node<BR, KR, VR>>)
//%permit     requires
//%permit         pjoin(g, s1, t1), rsound(g, t1), 1 <= l < minh(s1, t1), b == lend(l, t1.len(), s1.len()), mid.len() == b - l, t2 == spliced(t1, mid, l, b), inners(mid), walks(hunt_r(g, x, l), mid), top_kept(t1.subrange(l, b), mid),
//%permit         fine(g.hl, x, (l - 1) as nat), forall|e: (KL, VL)| #[trigger] bag(x.children, (l - 1) as nat).count(e) > 0 ==> granted(g, e, t1, l),
//%permit         y is Some ==> fine(hunt_r(g, x, l), *y->Some_0, (l - 1) as nat) && (g.bok)(x.bounds, y->Some_0.bounds),
//%permit     ensures pfound(g, s1, t2, l, x, y)
//%permit {
//%permit     let m = (l - 1) as nat;
//%permit     lemma_splice_at(t1, t2, mid, l, b);
//%permit     lemma_psame(g, s1, t1, t2, mid, l, b);
//%permit     assert forall|e: (KL, VL)| #[trigger] bag(x.children, m).count(e) > 0 implies granted(g, e, t2, l) && (y is Some ==> lperm_in(g, e, *y->Some_0, m)) by {
//%permit         lemma_psought(g, s1, t1, t2, mid, l, b, x, e);
//%permit         if y is Some { lemma_pmet(g, l, x, *y->Some_0, e); }
//%permit     }
//%permit }
//%permit pub proof fn lemma_flat_cov<B, K, V>(cov: spec_fn(B, (K, V)) -> bool, n: Node<B, K, V>, l: nat, e: (K, V))
//%permit     requires covered_by(cov, n, l), bag(n.children, l).count(e) > 0
//%permit     ensures cov(n.bounds, e)
//%permit {
//%permit     broadcast use vstd::seq_lib::group_to_multiset_ensures;
//%permit     let f = flat(n.children, l);
//%permit     assert(f.contains(e));
//%permit     let i = choose|i: int| 0 <= i < f.len() && f[i] == e;
//%permit     assert(cov(n.bounds, f[i]));
//%permit }
//%permit /// x and y are opened
//%permit pub proof fn lemma_pdescend<'l, 'r, BL, BR, KL, KR, VL, VR>(
//%permit     g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, s3: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, t3: Rs<'r, BR, KR, VR>, l: int, x: Node<BL, KL, VL>, y: Option<&'r Node<BR, KR, VR>>)
//%permit     requires 1 <= l < minh(s1, t1), t1.len() == t2.len(), ltaken(g, s1, s2, t1, l, x), rfound(g, s2, t1, t2, l, x, y), pfound(g, s1, t2, l, x, y), started_l(s2, s3, l - 1, x), started_r(t2, t3, l - 1, y), lm(s3) == lm(s1)
//%permit     ensures pjoin(g, s3, t3)
//%permit {
//%permit     let m = (l - 1) as nat;
//%permit     let q = bag(x.children, m);
//%permit     let top = t3.len() - 1;
//%permit     assert(t3[top] == t2[top]);
//%permit     assert(lempty(s3, l - 1)) by { assert forall|i: int| 1 <= i < l - 1 implies items(inn(#[trigger] s3[i])).len() == 0 by { assert(s3[i] == s2[i]); } if l > 1 { assert(s3[0] == s2[0]); } }
//%permit     assert(lpm(s3, l - 1) == q) by { if l > 1 { assert(vw(s3)[l - 2] == items(inn(s3[l - 1]))); } }
//%permit     assert forall|k: int| 0 <= k < minh(s3, t3) - 1 implies #[trigger] grants(g, s3, t3, k) by {
//%permit         if k < l - 1 { lemma_lpm_none(s3, k, l - 1); }
//%permit         else if k == l - 1 {
//%permit             assert forall|e: (KL, VL)| #[trigger] lpm(s3, k).count(e) > 0 implies granted(g, e, t3, k) by {
//%permit                 assert(q.count(e) > 0);
//%permit                 assert(granted(g, e, t2, l));
//%permit                 assert forall|j: int| k <= j < t3.len() && 1 <= j implies lperm_all(g, e, inn(#[trigger] t3[j]).slice@, (j - 1) as nat) by { if j > k { assert(t3[j] == t2[j]); } }
//%permit             }
//%permit         } else {
//%permit             assert(grants(g, s1, t2, k));
//%permit             assert(s3[k] == s2[k]);
//%permit             assert(vw(s3)[k - 1] == vw(s2)[k - 1]);
//%permit             assert forall|e: (KL, VL)| #[trigger] lpm(s3, k).count(e) > 0 implies granted(g, e, t3, k) by {
//%permit                 assert(lpm(s2, k).count(e) > 0);
//%permit                 assert(granted(g, e, t2, k));
//%permit                 assert forall|j: int| k <= j < t3.len() && 1 <= j implies lperm_all(g, e, inn(#[trigger] t3[j]).slice@, (j - 1) as nat) by { assert(t3[j] == t2[j]); }
//%permit             }
//%permit         }
//%permit     }
//%permit }
//%permit /// the right was rewound from index l on
//%permit pub proof fn lemma_prewound<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t3: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
//%permit     requires
//%permit         pjoin(g, s1, t1), lpassed(g, s1, s2, t1, l - 1), 1 <= l < minh(s1, t1), b == lend(l, t1.len(), s1.len()), t3 == spliced(t1, mid, l, b), rewound(t1.subrange(l, b), mid),
//%permit     ensures pjoin(g, s2, t3)
//%permit {
//%permit     hide(granted); hide(tot); hide(bags); hide(lpm); hide(lsound); hide(serving); hide(lm); hide(wtot); hide(lperm_all);
//%permit     lemma_splice_at(t1, t3, mid, l, b);
//%permit     lemma_psame(g, s1, t1, t3, mid, l, b);
//%permit     assert forall|k: int| 0 <= k < minh(s2, t3) - 1 implies #[trigger] grants(g, s2, t3, k) by {
//%permit         if k < l { lemma_lpm_none(s2, k, l); } else {
//%permit             assert(grants(g, s1, t3, k));
//%permit             assert forall|e: (KL, VL)| #[trigger] lpm(s2, k).count(e) > 0 implies granted(g, e, t3, k) by { assert(lpm(s1, k).count(e) > 0); }
//%permit         }
//%permit     }
//%permit }
//%permit /// the entry e was taken
//%permit pub proof fn lemma_ptook<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, e: (KL, VL))
//%permit     requires pjoin(g, s1, t), minh(s1, t) >= 2, put_leaf(s1, s2, lf(s2[0])), items(lf(s1[0])) =~= seq![e] + items(lf(s2[0])), lpm(s1, 0).count(e) > 0, forall|x: (KL, VL)| #[trigger] lm(s2).count(x) > 0 ==> lm(s1).count(x) > 0
//%permit     ensures pjoin(g, s2, t), granted(g, e, t, 0)
//%permit {
//%permit     assert(grants(g, s1, t, 0));
//%permit     assert forall|k: int| 0 <= k < minh(s2, t) - 1 implies #[trigger] grants(g, s2, t, k) by {
//%permit         assert(grants(g, s1, t, k));
//%permit         if k == 0 {
//%permit             vstd::seq_lib::lemma_multiset_commutative(seq![e], items(lf(s2[0])));
//%permit             assert forall|x: (KL, VL)| #[trigger] lpm(s2, 0).count(x) > 0 implies granted(g, x, t, 0) by { assert(lpm(s1, 0).count(x) > 0); }
//%permit         } else { assert(s1[k] == s2[k]); assert(vw(s2)[k - 1] == vw(s1)[k - 1]); assert(lpm(s1, k) == lpm(s2, k)); }
//%permit     }
//%permit }
//%permit /// only a root is on the right
//%permit pub proof fn lemma_pfresh<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, a: NodeRef<'l, BL, KL, VL>, b: NodeRef<'r, BR, KR, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>)
//%permit     requires
//%permit         ready(g, a, b), s.len() == a.level + 2, t.len() == b.level + 2, lempty(s, s.len() - 1), lm(s) == bag(a.node.children, a.level as nat),
//%permit         inn(t[b.level + 1]).slice@ =~= if clen(b.node.children, b.level as nat) == 0 { Seq::empty() } else { seq![*b.node] },
//%permit     ensures pjoin(g, s, t)
//%permit {
//%permit     assert forall|k: int| 0 <= k < minh(s, t) - 1 implies #[trigger] grants(g, s, t, k) by { lemma_lpm_none(s, k, s.len() - 1); }
//%permit     assert forall|e: (KL, VL)| #[trigger] lm(s).count(e) > 0 implies lperm_all(g, e, inn(t[t.len() - 1]).slice@, (t.len() - 2) as nat) by { assert(lperm(g, e, *b.node, b.level as nat)); }
//%permit }
//%permit /// what may be tested for the filter of the row of e
//%permit pub proof fn lemma_permits<'l, BL, BR, KL: Borrow<QL>, KR: Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(g: Lj<BL, BR, KL, KR, VL, VR>, f: JoiningFilter<'l, BL, QL, F>, e: (KL, VL), n: Node<BR, KR, VR>, l: nat)
//%permit     requires
//%permit         (g.hl.cov)(f.bounds, e), f.key == e.0.borrow_spec(), lperm(g, e, n, l),
//%permit         forall|a: KL, b: KR| #[trigger] (g.may)(a, b) == f.filter.may_pair(a.borrow_spec(), b.borrow_spec()), forall|a: BL, b: BR| #[trigger] (g.bok)(a, b) == f.filter.bounds_pair_ok(&a, &b),
//%permit     ensures super::iter::permits::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, n, l)
//%permit     decreases l
//%permit {
//%permit     if SpatialFilter::<BR, QR>::bounds_ok(&f, &n.bounds) {
//%permit         assert((g.bok)(f.bounds, n.bounds));
//%permit         assert(opens(g, e, n.bounds));
//%permit         if l == 0 {
//%permit             assert forall|i: int| 0 <= i < leaf(n.children)@.len() implies SpatialFilter::<BR, QR>::may_test(&f, (#[trigger] leaf(n.children)@[i]).0.borrow_spec()) by { assert((g.may)(e.0, leaf(n.children)@[i].0)); }
//%permit         } else {
//%permit             assert forall|i: int| 0 <= i < inner(n.children)@.len() implies super::iter::permits::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, #[trigger] inner(n.children)@[i], (l - 1) as nat) by {
//%permit                 lemma_permits::<BL, BR, KL, KR, VL, VR, QL, QR, F>(g, f, e, inner(n.children)@[i], (l - 1) as nat);
//%permit             }
//%permit         }
//%permit     }
//%permit }
/// y was found on the right
pub open spec fn rfound<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s2: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, l: int, x: Node<BL, KL, VL>, y: Option<&'r Node<BR, KR, VR>>) -> bool {
    let m = (l - 1) as nat;
    &&& rsound(g, t2) && t2.len() == t1.len() && served(g, bag(x.children, m), bago(y, m).add(rup(t2, l))) && serving(g, s2, t2, l, minh(s2, t2) - 1)
    &&& y is Some ==> fine(g.hr, *y->Some_0, m)
}
/// nothing is left at index l
pub open spec fn lpassed<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int) -> bool {
    &&& lsound(g, s2) && s2.len() == s1.len() && lm(s1) == lm(s2) && wtot(vw(s2), 0) <= wtot(vw(s1), 0)
    &&& lempty(s2, lend(l, s1.len(), t.len())) && serving(g, s2, t, 0, minh(s1, t) - 1)
//%permit     &&& less(s1, s2, 0, minh(s1, t) - 1, Multiset::empty())
}
pub proof fn lemma_served_less<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, m: Entries<KL, VL>, n: Entries<KL, VL>, sc: Entries<KR, VR>)
    requires served(g, m, sc), forall|e: (KL, VL)| n.count(e) <= m.count(e)
    ensures served(g, n, sc)
{
    assert forall|e: (KL, VL), r: (KR, VR)| n.count(e) > 0 && (g.ok)(e.0, r.0) implies sc.count(r) == g.all.count(r) by { assert(m.count(e) > 0); }
}
pub proof fn lemma_no_bag<B, K, V>(s: Seq<Node<B, K, V>>, l: nat)
    requires s.len() == 0
    ensures bags(s, l) == Multiset::<(K, V)>::empty(), wts(s, l) == 0
{
    assert(flats(s, l) =~= Seq::empty());
    Seq::<(K, V)>::empty().to_multiset_ensures();
    assert(bags(s, l).len() == 0);
    assert(bags(s, l) =~= Multiset::empty());
}
/// what a splice does to the nodes to come
pub proof fn lemma_splice<'a, B: 'a, K: 'a, V: 'a, L, I: Walk<'a, Node<B, K, V>>>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>, m: Seq<Entry<L, I>>, a: int, b: int)
    requires 1 <= a <= b <= s.len(), m.len() == b - a, t == spliced(s, m, a, b)
    ensures
        t.len() == s.len(), t.subrange(a, b) =~= m, forall|i: int| 0 <= i < a || b <= i < s.len() ==> t[i] == #[trigger] s[i], forall|i: int| a <= i < b ==> #[trigger] t[i] == m[i - a],
        vw::<B, K, V, L, I>(s) =~= vw::<B, K, V, L, I>(s).take(a - 1) + views::<B, K, V, L, I>(s.subrange(a, b)) + vw::<B, K, V, L, I>(s).skip(b - 1),
        vw::<B, K, V, L, I>(t) =~= vw::<B, K, V, L, I>(s).take(a - 1) + views::<B, K, V, L, I>(m) + vw::<B, K, V, L, I>(s).skip(b - 1),
        tot(vw::<B, K, V, L, I>(s), 0) == tot(vw::<B, K, V, L, I>(s).take(a - 1), 0).add(tot(views::<B, K, V, L, I>(s.subrange(a, b)), (a - 1) as nat)).add(tot(vw::<B, K, V, L, I>(s).skip(b - 1), (b - 1) as nat)),
        tot(vw::<B, K, V, L, I>(t), 0) == tot(vw::<B, K, V, L, I>(s).take(a - 1), 0).add(tot(views::<B, K, V, L, I>(m), (a - 1) as nat)).add(tot(vw::<B, K, V, L, I>(s).skip(b - 1), (b - 1) as nat)),
        tot(vw::<B, K, V, L, I>(s).skip(a - 1), (a - 1) as nat) == tot(views::<B, K, V, L, I>(s.subrange(a, b)), (a - 1) as nat).add(tot(vw::<B, K, V, L, I>(s).skip(b - 1), (b - 1) as nat)),
        tot(vw::<B, K, V, L, I>(t).skip(a - 1), (a - 1) as nat) == tot(views::<B, K, V, L, I>(m), (a - 1) as nat).add(tot(vw::<B, K, V, L, I>(s).skip(b - 1), (b - 1) as nat)),
        wtot(vw::<B, K, V, L, I>(s), 0) - wtot(views::<B, K, V, L, I>(s.subrange(a, b)), (a - 1) as nat) == wtot(vw::<B, K, V, L, I>(t), 0) - wtot(views::<B, K, V, L, I>(m), (a - 1) as nat),
{
    let (v, w) = (vw::<B, K, V, L, I>(s), vw::<B, K, V, L, I>(t));
    let (x, y) = (views::<B, K, V, L, I>(s.subrange(a, b)), views::<B, K, V, L, I>(m));
    assert(v =~= v.take(a - 1) + x + v.skip(b - 1));
    assert(w =~= v.take(a - 1) + y + v.skip(b - 1));
    lemma_tot_add(v.take(a - 1) + x, v.skip(b - 1), 0);
    lemma_tot_add(v.take(a - 1) + y, v.skip(b - 1), 0);
    lemma_tot_add(v.take(a - 1), x, 0);
    lemma_tot_add(v.take(a - 1), y, 0);
    assert(v.skip(a - 1) =~= x + v.skip(b - 1));
    assert(w.skip(a - 1) =~= y + v.skip(b - 1));
    lemma_tot_add(x, v.skip(b - 1), (a - 1) as nat);
    lemma_tot_add(y, v.skip(b - 1), (a - 1) as nat);
}
/// the right entries from index l on are those at l and those above
pub proof fn lemma_rup<'r, BR, KR, VR>(t: Rs<'r, BR, KR, VR>, l: int)
    requires 1 <= l < t.len()
    ensures rup(t, l) =~= bags(inn(t[l]).rest(), (l - 1) as nat).add(rup(t, l + 1))
{
    let v = vw(t);
    assert(v.skip(l - 1) =~= seq![v[l - 1]] + v.skip(l));
    lemma_tot_add(seq![v[l - 1]], v.skip(l), (l - 1) as nat);
    lemma_tot_one(v[l - 1], (l - 1) as nat);
}
pub proof fn lemma_rup_same<'r, BR, KR, VR>(t: Rs<'r, BR, KR, VR>, u: Rs<'r, BR, KR, VR>, l: int)
    requires 1 <= l <= t.len() == u.len(), forall|i: int| l <= i < t.len() ==> t[i] == #[trigger] u[i]
    ensures rup(t, l) == rup(u, l)
{
    assert(vw(t).skip(l - 1) =~= vw(u).skip(l - 1)) by {
        assert forall|i: int| 0 <= i < vw(t).skip(l - 1).len() implies #[trigger] vw(t).skip(l - 1)[i] == vw(u).skip(l - 1)[i] by { assert(t[l + i] == u[l + i]); }
    }
}
/// at the top, all right entries are to come
pub proof fn lemma_rtop<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, t: Rs<'r, BR, KR, VR>, l: int, n: int)
    requires rsound(g, t), 1 <= l, l + 1 == (if n <= t.len() { n } else { t.len() as int }), rew(t, l, n)
    ensures rup(t, l) == g.all
{
    let top = t.len() - 1;
    assert(vw(t).skip(top) =~= Seq::empty());
    lemma_rup(t, top);
    assert(inn(t[top]).rest() =~= inn(t[top]).slice@);
    assert(rup(t, top) =~= g.all);
    if l + 1 == n { lemma_rtop_down(g, t, l, top); }
}
pub proof fn lemma_rtop_down<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, t: Rs<'r, BR, KR, VR>, l: int, top: int)
    requires 1 <= l <= top < t.len(), rup(t, top) == g.all, forall|m: int| l <= m < top ==> inn(#[trigger] t[m]).slice@.len() == 0 && inn(t[m]).i == 0
    ensures rup(t, l) == g.all
    decreases top - l
{
    if l < top {
        lemma_rtop_down(g, t, l + 1, top);
        lemma_rup(t, l);
        assert(inn(t[l]).slice@.len() == 0);
        lemma_no_bag(inn(t[l]).rest(), (l - 1) as nat);
        assert(rup(t, l) =~= g.all);
    }
}
pub proof fn lemma_left_ready<'l, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s: Items<'l, BL, KL, VL>, l: int, b: int)
    requires lsound(g, s), 1 <= l <= b <= s.len()
    ensures fines(hunt_l(g, l), views(s.subrange(l, b)), (l - 1) as nat), walks(hunt_l(g, l), s.subrange(l, b))
{
    let m = s.subrange(l, b);
    assert forall|i: int| 0 <= i < views(m).len() implies fine_all(hunt_l(g, l), #[trigger] views(m)[i], (l - 1) as nat + i as nat) by {
        assert(views(m)[i] == vw(s)[l - 1 + i]);
        assert(fine_all(g.hl, vw(s)[l - 1 + i], (l - 1 + i) as nat));
    }
}
pub proof fn lemma_left_counts<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, mid: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>)
    requires
        head(g, s1, t, l), 1 <= l < minh(s1, t), b == lend(l, s1.len(), t.len()), mid.len() == b - l, s2 == spliced(s1, mid, l, b), inners(mid), fines(hunt_l(g, l), views(mid), (l - 1) as nat), fine(hunt_l(g, l), x, (l - 1) as nat),
        hunted(hunt_l(g, l), tot(views(s1.subrange(l, b)), (l - 1) as nat), bag(x.children, (l - 1) as nat), tot(views(mid), (l - 1) as nat)),
        wtot(views(mid), (l - 1) as nat) + wt(x, (l - 1) as nat) <= wtot(views(s1.subrange(l, b)), (l - 1) as nat),
    ensures
        s2.len() == s1.len(), s2[0] == s1[0], lm(s1) == lm(s2).add(bag(x.children, (l - 1) as nat)), wtot(vw(s2), 0) + wt(x, (l - 1) as nat) <= wtot(vw(s1), 0), lempty(s2, l),
        forall|e: (KL, VL)| #[trigger] tot(views(s1.subrange(l, b)), (l - 1) as nat).count(e) == bag(x.children, (l - 1) as nat).count(e) + tot(views(mid), (l - 1) as nat).count(e),
{
    hide(tot); hide(wtot); hide(wt); hide(bag); hide(served); hide(rfm); hide(fine); hide(fine_all); hide(flat);
    let m = (l - 1) as nat;
    let h = hunt_l(g, l);
    let q = bag(x.children, m);
    let sub = s1.subrange(l, b);
    lemma_splice(s1, s2, mid, l, b);
    assert forall|e: (KL, VL)| #[trigger] tot(views(sub), m).count(e) == q.count(e) + tot(views(mid), m).count(e) by { assert((h.ok)(e)); }
    assert(s2[0] == s1[0]) by { assert(s1[0] == s1[0]); }
    assert(lm(s1) =~= lm(s2).add(q));
    assert forall|i: int| 1 <= i < l implies items(inn(#[trigger] s2[i])).len() == 0 by { assert(s2[i] == s1[i]); }
}
pub proof fn lemma_left_serves<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, mid: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>)
    requires
        head(g, s1, t, l), 1 <= l < minh(s1, t), b == lend(l, s1.len(), t.len()), mid.len() == b - l, s2 == spliced(s1, mid, l, b), inners(mid), fines(hunt_l(g, l), views(mid), (l - 1) as nat), fine(hunt_l(g, l), x, (l - 1) as nat),
        hunted(hunt_l(g, l), tot(views(s1.subrange(l, b)), (l - 1) as nat), bag(x.children, (l - 1) as nat), tot(views(mid), (l - 1) as nat)),
        wtot(views(mid), (l - 1) as nat) + wt(x, (l - 1) as nat) <= wtot(views(s1.subrange(l, b)), (l - 1) as nat),
    ensures
        served(g, bag(x.children, (l - 1) as nat), rup(t, l)), serving(g, s2, t, l, minh(s1, t) - 1),
//%permit         less(s1, s2, l, minh(s1, t) - 1, bag(x.children, (l - 1) as nat)),
{
    hide(tot); hide(wtot); hide(wt); hide(bag); hide(served); hide(fine); hide(fine_all); hide(flat);
    let m = (l - 1) as nat;
    let q = bag(x.children, m);
    lemma_left_counts(g, s1, s2, mid, t, l, b, x);
    if l + 1 < minh(s1, t) {
        let sub = s1.subrange(l, b);
        assert forall|i: int| l < i < s1.len() implies s1[i] == #[trigger] s2[i] by { lemma_splice(s1, s2, mid, l, b); assert(s1[i] == s1[i]); }
        assert(s2[l] == mid[0]) by { lemma_splice(s1, s2, mid, l, b); }
        assert(served(g, lpm(s1, l), scope(t, l)));
        assert(views(sub) =~= seq![vw(s1)[l - 1]]);
        assert(views(mid) =~= seq![vw(s2)[l - 1]]);
        lemma_tot_one(vw(s1)[l - 1], m);
        lemma_tot_one(vw(s2)[l - 1], m);
        assert(lpm(s1, l) == tot(views(sub), m) && lpm(s2, l) == tot(views(mid), m));
        lemma_rup(t, l);
        assert(inn(t[l]).rest() =~= inn(t[l]).slice@);
        assert(rup(t, l) == scope(t, l));
        lemma_served_less(g, lpm(s1, l), q, scope(t, l));
        lemma_served_less(g, lpm(s1, l), lpm(s2, l), scope(t, l));
        assert forall|k: int| l <= k < minh(s1, t) - 1 implies served(g, #[trigger] lpm(s2, k), scope(t, k)) by {
            if k > l { assert(served(g, lpm(s1, k), scope(t, k))); assert(s1[k] == s2[k]); assert(vw(s2)[k - 1] == vw(s1)[k - 1]); }
        }
//%permit         assert forall|k: int, e: (KL, VL)| #![trigger lpm(s2, k).count(e)] l <= k < minh(s1, t) - 1 && lpm(s2, k).count(e) > 0 implies lpm(s1, k).count(e) > 0 by { if k > l { assert(s1[k] == s2[k]); assert(vw(s2)[k - 1] == vw(s1)[k - 1]); } else { assert(tot(views(sub), m).count(e) == q.count(e) + tot(views(mid), m).count(e)); } }
//%permit         assert forall|e: (KL, VL)| #[trigger] q.count(e) > 0 implies lpm(s1, l).count(e) > 0 by { assert(tot(views(sub), m).count(e) == q.count(e) + tot(views(mid), m).count(e)); }
    } else {
        lemma_rtop(g, t, l, s1.len() as int);
        assert(served(g, q, rup(t, l))) by { reveal(served); }
    }
}
pub proof fn lemma_left_bok<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, l: int, x: Node<BL, KL, VL>)
    requires lj_law(g), 1 <= l, fine(hunt_l(g, l), x, (l - 1) as nat)
    ensures forall|c: BR, r: (KR, VR)| #[trigger] (g.hr.cov)(c, r) && wanted(g, bag(x.children, (l - 1) as nat), r) ==> (g.bok)(x.bounds, c)
{
    let m = (l - 1) as nat;
    let q = bag(x.children, m);
    assert forall|c: BR, r: (KR, VR)| #[trigger] (g.hr.cov)(c, r) && wanted(g, q, r) implies (g.bok)(x.bounds, c) by {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let e = choose|e: (KL, VL)| #[trigger] q.count(e) > 0 && (g.ok)(e.0, r.0);
        let f = flat(x.children, m);
        assert(f.contains(e));
        let i = choose|i: int| 0 <= i < f.len() && f[i] == e;
        assert((g.hl.cov)(x.bounds, f[i]));
    }
}
pub proof fn lemma_left_taken<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, mid: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>)
    requires
        head(g, s1, t, l), 1 <= l < minh(s1, t), b == lend(l, s1.len(), t.len()), mid.len() == b - l, s2 == spliced(s1, mid, l, b), inners(mid), fines(hunt_l(g, l), views(mid), (l - 1) as nat), fine(hunt_l(g, l), x, (l - 1) as nat),
        hunted(hunt_l(g, l), tot(views(s1.subrange(l, b)), (l - 1) as nat), bag(x.children, (l - 1) as nat), tot(views(mid), (l - 1) as nat)),
        wtot(views(mid), (l - 1) as nat) + wt(x, (l - 1) as nat) <= wtot(views(s1.subrange(l, b)), (l - 1) as nat),
    ensures
        ltaken(g, s1, s2, t, l, x), stack_of(s2), s2.len() == s1.len(),
        forall|c: BR, r: (KR, VR)| #[trigger] (g.hr.cov)(c, r) && wanted(g, bag(x.children, (l - 1) as nat), r) ==> (g.bok)(x.bounds, c),
{
    lemma_left_bok(g, l, x);
    lemma_left_counts(g, s1, s2, mid, t, l, b, x);
    lemma_left_serves(g, s1, s2, mid, t, l, b, x);
    lemma_lsound(g, s1, s2, mid, l, b);
}
pub proof fn lemma_lsound<'l, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, mid: Items<'l, BL, KL, VL>, l: int, b: int)
    requires lsound(g, s1), 1 <= l <= b <= s1.len(), mid.len() == b - l, s2 == spliced(s1, mid, l, b), inners(mid), fines(hunt_l(g, l), views(mid), (l - 1) as nat)
    ensures lsound(g, s2)
{
    hide(fits); hide(covered_by); hide(wtot); hide(tot);
    lemma_spliced_at(s1, s2, mid, l, b);
    assert(s2[0] == s1[0]) by { assert(s1[0] == s1[0]); }
    assert forall|i: int| 1 <= i < s2.len() implies is_variant(#[trigger] s2[i], "inner") by { if l <= i < b { assert(s2[i] == mid[i - l]); } else { assert(s2[i] == s1[i]); } }
    assert forall|i: int| 0 <= i < vw(s2).len() implies fine_all(g.hl, #[trigger] vw(s2)[i], 0 + i as nat) by {
        if l <= i + 1 < b { assert(s2[i + 1] == mid[i + 1 - l]); assert(vw(s2)[i] == views(mid)[i + 1 - l]); assert(fine_all(hunt_l(g, l), views(mid)[i + 1 - l], (l - 1 + (i + 1 - l)) as nat)); }
        else { assert(s2[i + 1] == s1[i + 1]); assert(vw(s2)[i] == vw(s1)[i]); assert(fine_all(g.hl, vw(s1)[i], i as nat)); }
    }
}
pub proof fn lemma_right_ready<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, t: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>)
    requires rsound(g, t), 1 <= l <= b <= t.len()
//%permit         , forall|e: (KL, VL)| #[trigger] bag(x.children, (l - 1) as nat).count(e) > 0 ==> granted(g, e, t, l)
    ensures fines(hunt_r(g, x, l), views(t.subrange(l, b)), (l - 1) as nat), walks(hunt_r(g, x, l), t.subrange(l, b))
{
    let m = t.subrange(l, b);
    let h = hunt_r(g, x, l);
//%permit     assert forall|j: int, i: int| l <= j < t.len() && 0 <= i < inn(t[j]).slice@.len() implies allowed(g, bag(x.children, (l - 1) as nat), #[trigger] inn(t[j]).slice@[i], (j - 1) as nat) by {
//%permit         assert forall|e: (KL, VL)| #[trigger] bag(x.children, (l - 1) as nat).count(e) > 0 implies lperm(g, e, inn(t[j]).slice@[i], (j - 1) as nat) by { assert(granted(g, e, t, l)); assert(lperm_all(g, e, inn(t[j]).slice@, (j - 1) as nat)); }
//%permit     }
    assert forall|i: int| 0 <= i < m.len() implies inn(#[trigger] m[i]).inv() && fine_all(h, inn(m[i]).all(), h.base + i as nat) by { assert(m[i] == t[l + i]); assert(fine_all(g.hr, inn(t[l + i]).slice@, (l + i - 1) as nat)); }
    assert forall|i: int| 0 <= i < views(m).len() implies fine_all(h, #[trigger] views(m)[i], (l - 1) as nat + i as nat) by {
        assert(m[i] == t[l + i]);
        assert(fine_all(g.hr, inn(t[l + i]).slice@, (l + i - 1) as nat));
        assert forall|j: int| 0 <= j < views(m)[i].len() implies fine(h, #[trigger] views(m)[i][j], (l - 1) as nat + i as nat) by { assert(views(m)[i][j] == inn(t[l + i]).slice@[inn(t[l + i]).i + j]); }
    }
}
pub proof fn lemma_rsound<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, h: Hunt<BR, KR, VR>, t: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
    requires
        rsound(g, t), 1 <= l < b <= t.len(), mid.len() == b - l, t2 == spliced(t, mid, l, b), inners(mid), walks(h, mid), h.base == l - 1, h.cap == g.hr.cap, h.cov == g.hr.cov,
        inn(mid.last()).slice@ == inn(t[b - 1]).slice@,
    ensures rsound(g, t2), t2.len() == t.len()
{
    hide(fits); hide(covered_by); hide(bags); hide(tot);
    lemma_spliced_at(t, t2, mid, l, b);
    assert(t2[0] == t[0]) by { assert(t[0] == t[0]); }
    assert forall|i: int| 1 <= i < t2.len() implies is_variant(#[trigger] t2[i], "inner") && inn(t2[i]).i <= inn(t2[i]).slice@.len() && fine_all(g.hr, inn(t2[i]).slice@, (i - 1) as nat) by {
        if l <= i < b { assert(t2[i] == mid[i - l]); assert(inn(mid[i - l]).inv()); assert(fine_all(h, inn(mid[i - l]).all(), h.base + (i - l) as nat)); } else { assert(t2[i] == t[i]); }
    }
    let top = t.len() - 1;
    if b <= top { assert(t2[top] == t[top]); } else { assert(t2[top] == mid[top - l]); }
}
/// what the left nodes above l are served is as it was
pub proof fn lemma_still_serving<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s2: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
    requires
        1 <= l < minh(s2, t1), b == lend(l, t1.len(), s2.len()), mid.len() == b - l, t2 == spliced(t1, mid, l, b), top_kept(t1.subrange(l, b), mid), serving(g, s2, t1, l, minh(s2, t1) - 1), inners(mid), stack_of(t1),
    ensures
        serving(g, s2, t2, l, minh(s2, t2) - 1),
{
    lemma_splice(t1, t2, mid, l, b);
    if l + 1 < minh(s2, t1) {
        assert forall|k: int| l <= k < minh(s2, t2) - 1 implies served(g, #[trigger] lpm(s2, k), scope(t2, k)) by {
            assert(served(g, lpm(s2, k), scope(t1, k)));
            lemma_rup_same(t1, t2, k + 1);
            if k == l { assert(t2[l] == mid[0]); } else { assert(t2[k] == t1[k]); }
        }
    }
}
/// of those before the cut a group y is taken, c are left
pub proof fn lemma_found<BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, h: Hunt<BR, KR, VR>, q: Entries<KL, VL>, a: Entries<KR, VR>, y: Entries<KR, VR>, c: Entries<KR, VR>, rest: Entries<KR, VR>)
    requires h.ok == (|r: (KR, VR)| wanted(g, q, r)), served(g, q, a.add(rest)), hunted(h, a, y, c)
    ensures served(g, q, y.add(c.add(rest)))
{
    assert forall|e: (KL, VL), r: (KR, VR)| q.count(e) > 0 && (g.ok)(e.0, r.0) implies y.add(c.add(rest)).count(r) == g.all.count(r) by {
        assert(wanted(g, q, r));
        assert((h.ok)(r));
        assert(a.add(rest).count(r) == g.all.count(r));
    }
}
pub proof fn lemma_right_found<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s2: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int, x: Node<BL, KL, VL>, y: Option<&'r Node<BR, KR, VR>>)
    requires
        rsound(g, t1), rew(t1, l, s2.len() as int), 1 <= l < minh(s2, t1), b == lend(l, t1.len(), s2.len()), mid.len() == b - l, t2 == spliced(t1, mid, l, b), inners(mid), walks(hunt_r(g, x, l), mid),
        top_kept(t1.subrange(l, b), mid), served(g, bag(x.children, (l - 1) as nat), rup(t1, l)), serving(g, s2, t1, l, minh(s2, t1) - 1),
        y is None ==> forall|i: int| 0 <= i < mid.len() ==> (#[trigger] views(mid)[i]).len() == 0,
        y is None ==> hunted(hunt_r(g, x, l), tot(views(t1.subrange(l, b)), (l - 1) as nat), Multiset::empty(), Multiset::empty()),
        y is Some ==> fine(hunt_r(g, x, l), *y->Some_0, (l - 1) as nat) && hunted(hunt_r(g, x, l), tot(views(t1.subrange(l, b)), (l - 1) as nat), bag(y->Some_0.children, (l - 1) as nat), tot(views(mid), (l - 1) as nat)),
    ensures
        rfound(g, s2, t1, t2, l, x, y), stack_of(t2), t2.len() == t1.len(),
{
    let m = (l - 1) as nat;
    let h = hunt_r(g, x, l);
    let q = bag(x.children, m);
    let sub = t1.subrange(l, b);
    lemma_splice(t1, t2, mid, l, b);
    lemma_rsound(g, h, t1, t2, mid, l, b);
    if y is None { lemma_over(h, views(mid), m); }
    let rest = tot(vw(t1).skip(b - 1), (b - 1) as nat);
    lemma_found(g, h, q, tot(views(sub), m), bago(y, m), tot(views(mid), m), rest);
    assert(rup(t1, l) == tot(views(sub), m).add(rest));
    assert(rup(t2, l) == tot(views(mid), m).add(rest));
    lemma_still_serving(g, s2, t1, t2, mid, l, b);
}
pub proof fn lemma_ldescend<'l, 'r, BL, BR, KL, KR, VL, VR>(
    g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, s3: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t2: Rs<'r, BR, KR, VR>, t3: Rs<'r, BR, KR, VR>, l: int, x: Node<BL, KL, VL>, y: Option<&'r Node<BR, KR, VR>>)
    requires
        lj_law(g), 1 <= l < minh(s1, t1), ltaken(g, s1, s2, t1, l, x), rfound(g, s2, t1, t2, l, x, y), started_l(s2, s3, l - 1, x), started_r(t2, t3, l - 1, y),
    ensures
        head(g, s3, t3, l - 1), lm(s3) == lm(s1), wtot(vw(s3), 0) < wtot(vw(s1), 0), s3.len() == s1.len(), t3.len() == t1.len(),
{
    let m = (l - 1) as nat;
    let q = bag(x.children, m);
    let (v2, v3) = (vw(s2), vw(s3));
    // left
    if l > 1 {
        assert(items(inn(s2[l - 1])).len() == 0);
        lemma_no_bag(v2[l - 2], (l - 2) as nat);
        assert forall|j: int| 0 <= j < v2.len() && j != l - 2 implies v2[j] == #[trigger] v3[j] by { assert(s3[j + 1] == s2[j + 1]); }
        lemma_tot_update(v2, v3, 0, l - 2);
        assert(s3[0] == s2[0]);
        assert(bags(v3[l - 2], (l - 2) as nat) == q);
        assert(wt(x, m) == 1 + wts(inner(x.children)@, (l - 2) as nat));
        assert(tot(v3, 0) =~= tot(v2, 0).add(q)) by { assert(tot(v3, 0).add(Multiset::empty()) =~= tot(v3, 0)); }
        assert(lm(s3) =~= lm(s1));
    } else {
        assert(v3 =~= v2) by { assert forall|j: int| 0 <= j < v2.len() implies #[trigger] v2[j] == v3[j] by { assert(s3[j + 1] == s2[j + 1]); } }
        Seq::<(KL, VL)>::empty().to_multiset_ensures();
        assert(items(lf(s2[0])) =~= Seq::empty());
        assert(items(lf(s2[0])).to_multiset().len() == 0);
        assert(items(lf(s2[0])).to_multiset() =~= Multiset::empty());
        assert(lm(s3) =~= lm(s1));
    }
    assert(lpm(s3, l - 1) == q);
    assert forall|j: int| 0 <= j < v3.len() implies fine_all(g.hl, #[trigger] v3[j], 0 + j as nat) by {
        if j == l - 2 {
            assert forall|i: int| 0 <= i < v3[j].len() implies fine(g.hl, #[trigger] v3[j][i], j as nat) by { assert(v3[j][i] == inner(x.children)@[i]); }
        } else { assert(s3[j + 1] == s2[j + 1]); assert(v3[j] == v2[j]); assert(fine_all(g.hl, v2[j], 0 + j as nat)); }
    }
    assert forall|i: int| 1 <= i < l - 1 implies items(inn(#[trigger] s3[i])).len() == 0 by { assert(s3[i] == s2[i]); }
    if l > 1 { assert(s3[0] == s2[0]); }
    // right
    lemma_rup_same(t2, t3, l);
    assert(rfm(t3, l - 1) == bago(y, m)) by {
        if y is None {
            if l > 1 { lemma_no_bag(inn(t3[l - 1]).slice@, (l - 2) as nat); } else {
                Seq::<(KR, VR)>::empty().to_multiset_ensures();
                assert(rfm(t3, 0).len() == 0);
                assert(rfm(t3, 0) =~= Multiset::empty());
            }
        }
    }
    assert(rsound(g, t3)) by {
        let top = t3.len() - 1;
        assert(t3[top] == t2[top]);
        if l > 1 { assert(t3[0] == t2[0]); }
        assert forall|i: int| 1 <= i < t3.len() implies inn(#[trigger] t3[i]).i <= inn(t3[i]).slice@.len() && fine_all(g.hr, inn(t3[i]).slice@, (i - 1) as nat) by {
            if i == l - 1 {
                assert forall|j: int| 0 <= j < inn(t3[i]).slice@.len() implies fine(g.hr, #[trigger] inn(t3[i]).slice@[j], (i - 1) as nat) by { assert(inn(t3[i]).slice@[j] == inner(y->Some_0.children)@[j]); }
            } else { assert(t3[i] == t2[i]); }
        }
    }
    assert forall|k: int| 0 <= k < minh(s3, t3) - 1 implies served(g, #[trigger] lpm(s3, k), scope(t3, k)) by {
        if k < l - 1 { lemma_lpm_none(s3, k, l - 1); } else if k > l - 1 {
            assert(served(g, lpm(s2, k), scope(t2, k)));
            assert(s3[k] == s2[k] && t3[k] == t2[k]);
            assert(vw(s3)[k - 1] == vw(s2)[k - 1]);
            lemma_rup_same(t2, t3, k + 1);
        }
    }
}
pub proof fn lemma_lpm_none<'l, BL, KL, VL>(s: Items<'l, BL, KL, VL>, k: int, n: int)
    requires lempty(s, n), 0 <= k < n <= s.len()
    ensures lpm(s, k) == Multiset::<(KL, VL)>::empty()
{
    if k == 0 {
        Seq::<(KL, VL)>::empty().to_multiset_ensures();
        assert(items(lf(s[0])) =~= Seq::empty());
        assert(lpm(s, 0).len() == 0);
        assert(lpm(s, 0) =~= Multiset::empty());
    } else {
        assert(items(inn(s[k])).len() == 0);
        lemma_no_bag(vw(s)[k - 1], (k - 1) as nat);
    }
}
pub proof fn lemma_lpassed<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, mid: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, l: int, b: int)
    requires
        head(g, s1, t, l), 1 <= l < minh(s1, t), b == lend(l, s1.len(), t.len()), mid.len() == b - l, s2 == spliced(s1, mid, l, b), inners(mid), fines(hunt_l(g, l), views(mid), (l - 1) as nat),
        hunted(hunt_l(g, l), tot(views(s1.subrange(l, b)), (l - 1) as nat), Multiset::empty(), Multiset::empty()),
        forall|i: int| 0 <= i < mid.len() ==> (#[trigger] views(mid)[i]).len() == 0,
    ensures lpassed(g, s1, s2, t, l), stack_of(s2), s2.len() == s1.len()
{
    let m = (l - 1) as nat;
    let h = hunt_l(g, l);
    let sub = s1.subrange(l, b);
    lemma_splice(s1, s2, mid, l, b);
    lemma_lsound(g, s1, s2, mid, l, b);
    lemma_over(h, views(mid), m);
    assert forall|e: (KL, VL)| tot(views(sub), m).count(e) == 0 by { assert((h.ok)(e)); }
    assert(tot(views(sub), m) =~= Multiset::empty());
    assert(s2[0] == s1[0]) by { assert(s1[0] == s1[0]); }
    assert(lm(s1) =~= lm(s2));
    assert forall|i: int| 1 <= i < b implies items(inn(#[trigger] s2[i])).len() == 0 by { if i < l { assert(s2[i] == s1[i]); } else { assert(s2[i] == mid[i - l]); assert(views(mid)[i - l].len() == 0); } }
    assert forall|k: int| 0 <= k < minh(s1, t) - 1 implies served(g, #[trigger] lpm(s2, k), scope(t, k)) by {
        if k < b { lemma_lpm_none(s2, k, b); } else { assert(served(g, lpm(s1, k), scope(t, k))); assert(s2[k] == s1[k]); assert(vw(s2)[k - 1] == vw(s1)[k - 1]); }
    }
//%permit     assert forall|k: int, e: (KL, VL)| #![trigger lpm(s2, k).count(e)] 0 <= k < minh(s1, t) - 1 && lpm(s2, k).count(e) > 0 implies lpm(s1, k).count(e) > 0 by { if k < b { lemma_lpm_none(s2, k, b); } else { assert(s2[k] == s1[k]); assert(vw(s2)[k - 1] == vw(s1)[k - 1]); } }
}
pub proof fn lemma_lpassed_leaf<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>)
    requires head(g, s1, t, 0), put_leaf(s1, s2, lf(s2[0])), items(lf(s1[0])).len() == 0, items(lf(s2[0])).len() == 0
    ensures lpassed(g, s1, s2, t, 0)
{
    assert(items(lf(s1[0])) =~= items(lf(s2[0])));
    assert(vw(s1) =~= vw(s2)) by { assert forall|j: int| 0 <= j < vw(s1).len() implies #[trigger] vw(s1)[j] == vw(s2)[j] by { assert(s2[j + 1] == s1[j + 1]); } }
    assert forall|k: int| 0 <= k < minh(s1, t) - 1 implies served(g, #[trigger] lpm(s2, k), scope(t, k)) by { assert(served(g, lpm(s1, k), scope(t, k))); }
//%permit     assert forall|k: int, e: (KL, VL)| #![trigger lpm(s2, k).count(e)] 0 <= k < minh(s1, t) - 1 && lpm(s2, k).count(e) > 0 implies lpm(s1, k).count(e) > 0 by { assert(lpm(s1, k) == lpm(s2, k)); }
}
/// all is done
pub proof fn lemma_lnone<'l, BL, KL, VL>(s: Items<'l, BL, KL, VL>)
    requires s.len() >= 2, lempty(s, s.len() as int)
    ensures lm(s) == Multiset::<(KL, VL)>::empty()
{
    lemma_lpm_none(s, 0, s.len() as int);
//%!permit     let h = Hunt { base: 0, cap: 0, cov: |b: BL, e: (KL, VL)| true, ok: all_ok() };
//%permit     let h = Hunt { base: 0, cap: 0, cov: |b: BL, e: (KL, VL)| true, ok: all_ok(), perm: all_perm() };
    assert forall|j: int| 0 <= j < vw(s).len() implies (#[trigger] vw(s)[j]).len() == 0 by { assert(items(inn(s[j + 1])).len() == 0); }
    lemma_over(h, vw(s), 0);
    assert(lm(s) =~= Multiset::empty());
}
/// entries of a spliced stack
pub proof fn lemma_spliced_at<L, I>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>, m: Seq<Entry<L, I>>, a: int, b: int)
    requires 1 <= a <= b <= s.len(), m.len() == b - a, t == spliced(s, m, a, b)
    ensures t.len() == s.len(), forall|i: int| 0 <= i < a || b <= i < s.len() ==> #[trigger] t[i] == s[i], forall|i: int| a <= i < b ==> #[trigger] t[i] == m[i - a]
{}
/// ... its top
pub proof fn lemma_splice_at<L, I>(s: Seq<Entry<L, I>>, t: Seq<Entry<L, I>>, m: Seq<Entry<L, I>>, a: int, b: int)
    requires 1 <= a < b <= s.len(), m.len() == b - a, t == spliced(s, m, a, b)
    ensures
        t.len() == s.len(), forall|i: int| 0 <= i < a || b <= i < s.len() ==> #[trigger] t[i] == s[i], forall|i: int| a <= i < b ==> #[trigger] t[i] == m[i - a],
        s.subrange(a, b).last() == s[b - 1], m.last() == t[b - 1],
{}
pub proof fn lemma_lrewound_sound<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, t1: Rs<'r, BR, KR, VR>, t3: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
    requires rsound(g, t1), 1 <= l < b <= t1.len(), t3 == spliced(t1, mid, l, b), rewound(t1.subrange(l, b), mid)
    ensures rsound(g, t3), t3.len() == t1.len()
{
    hide(fits); hide(covered_by); hide(tot); hide(bags);
    lemma_splice_at(t1, t3, mid, l, b);
    let h = Hunt { base: (l - 1) as nat, ..g.hr };
    assert forall|i: int| 0 <= i < mid.len() implies inn(#[trigger] mid[i]).inv() && fine_all(h, inn(mid[i]).all(), h.base + i as nat) by {
        if i == b - l - 1 { assert(fine_all(g.hr, inn(t1[b - 1]).slice@, (b - 2) as nat)); } else { assert(inn(mid[i]).all().len() == 0); }
    }
    lemma_rsound(g, h, t1, t3, mid, l, b);
}
pub proof fn lemma_lrewound_serving<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t3: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
    requires
        lpassed(g, s1, s2, t1, l - 1), 1 <= l < minh(s1, t1), b == lend(l, t1.len(), s1.len()), t3 == spliced(t1, mid, l, b), rewound(t1.subrange(l, b), mid),
    ensures serving(g, s2, t3, 0, minh(s2, t3) - 1)
{
    hide(fits); hide(covered_by); hide(tot); hide(bags); hide(rup); hide(served); hide(lsound);
    lemma_splice_at(t1, t3, mid, l, b);
    assert forall|k: int| 0 <= k < minh(s2, t3) - 1 implies served(g, #[trigger] lpm(s2, k), scope(t3, k)) by {
        assert(served(g, lpm(s2, k), scope(t1, k)));
        if k < l {
            lemma_lpm_none(s2, k, l);
            assert(served(g, Multiset::<(KL, VL)>::empty(), scope(t3, k))) by { reveal(served); }
        } else {
            assert(b == l + 1);
            assert forall|i: int| k + 1 <= i < t1.len() implies t1[i] == #[trigger] t3[i] by {}
            lemma_rup_same(t1, t3, k + 1);
            if k == l { assert(t3[k] == mid[0]); } else { assert(t3[k] == t1[k]); }
            assert(rfm(t3, k) == rfm(t1, k));
        }
    }
}
pub proof fn lemma_lrewound<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t1: Rs<'r, BR, KR, VR>, t3: Rs<'r, BR, KR, VR>, mid: Rs<'r, BR, KR, VR>, l: int, b: int)
    requires
        ljoin(g, s1, t1), lpassed(g, s1, s2, t1, l - 1), 1 <= l < minh(s1, t1), b == lend(l, t1.len(), s1.len()), t3 == spliced(t1, mid, l, b), rewound(t1.subrange(l, b), mid),
    ensures head(g, s2, t3, l), t3.len() == t1.len()
{
    hide(fits); hide(covered_by); hide(tot); hide(bags); hide(lsound); hide(rsound); hide(serving);
    lemma_splice_at(t1, t3, mid, l, b);
    lemma_lrewound_sound(g, t1, t3, mid, l, b);
    lemma_lrewound_serving(g, s1, s2, t1, t3, mid, l, b);
    assert(rew(t3, l, s2.len() as int)) by {
        if l + 1 < s2.len() { assert(t3[l] == mid[0]); } else {
            assert forall|m: int| l <= m < t3.len() - 1 implies inn(#[trigger] t3[m]).slice@.len() == 0 && inn(t3[m]).i == 0 by { assert(t3[m] == mid[m - l]); }
        }
    }
}

pub proof fn lemma_empty_flat<B, K, V>(c: NodeChildren<B, K, V>, l: nat)
    requires clen(c, l) == 0
    ensures bag(c, l) == Multiset::<(K, V)>::empty()
{
    assert(flat(c, l) =~= Seq::empty());
    Seq::<(K, V)>::empty().to_multiset_ensures();
    assert(bag(c, l).len() == 0);
    assert(bag(c, l) =~= Multiset::empty());
}
/// stacks with a root on the top, or nothing
pub proof fn lemma_lfresh<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, a: NodeRef<'l, BL, KL, VL>, b: NodeRef<'r, BR, KR, VR>, s: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>)
    requires
        ready(g, a, b), stack_of(s), stack_of(t), s.len() == a.level + 2, t.len() == b.level + 2,
        items(lf(s[0])).len() == 0, forall|i: int| 1 <= i < s.len() - 1 ==> items(inn(#[trigger] s[i])).len() == 0,
        items(inn(s[a.level + 1])) =~= if clen(a.node.children, a.level as nat) == 0 { Seq::empty() } else { seq![*a.node] },
        lf(t[0]).i == 0, forall|i: int| 1 <= i < t.len() ==> inn(#[trigger] t[i]).i == 0, forall|i: int| 1 <= i < t.len() - 1 ==> inn(#[trigger] t[i]).slice@.len() == 0,
        inn(t[b.level + 1]).slice@ =~= if clen(b.node.children, b.level as nat) == 0 { Seq::empty() } else { seq![*b.node] },
    ensures ljoin(g, s, t), lm(s) == bag(a.node.children, a.level as nat), rfm(t, t.len() - 1) == g.all
{
    let (x, y) = (a.level as nat, b.level as nat);
    assert forall|k: int| 0 <= k < minh(s, t) - 1 implies served(g, #[trigger] lpm(s, k), scope(t, k)) by { lemma_lpm_none(s, k, s.len() - 1); }
    let v = vw(s);
    assert(v.take(x as int) + seq![v[x as int]] =~= v);
    lemma_tot_add(v.take(x as int), seq![v[x as int]], 0);
    lemma_tot_one(v[x as int], x);
    assert forall|j: int| 0 <= j < v.take(x as int).len() implies (#[trigger] v.take(x as int)[j]).len() == 0 by { assert(items(inn(s[j + 1])).len() == 0); }
    lemma_over(g.hl, v.take(x as int), 0);
    lemma_root_bag(*a.node, x, v[x as int]);
    lemma_root_bag(*b.node, y, inn(t[y as int + 1]).slice@);
    lemma_lpm_none(s, 0, 1);
    assert(lm(s) =~= bag(a.node.children, x));
    assert forall|j: int| 0 <= j < v.len() implies fine_all(g.hl, #[trigger] v[j], 0 + j as nat) by { if j < x { assert(items(inn(s[j + 1])).len() == 0); } }
    assert forall|l: int| 1 <= l < t.len() implies inn(#[trigger] t[l]).i <= inn(t[l]).slice@.len() && fine_all(g.hr, inn(t[l]).slice@, (l - 1) as nat) by { if l < t.len() - 1 { assert(inn(t[l]).slice@.len() == 0); } }
}
pub proof fn lemma_root_bag<B, K, V>(n: Node<B, K, V>, l: nat, s: Seq<Node<B, K, V>>)
    requires s =~= if clen(n.children, l) == 0 { Seq::empty() } else { seq![n] }
    ensures bags(s, l) == bag(n.children, l)
{
    if clen(n.children, l) == 0 { lemma_empty_flat(n.children, l); lemma_no_bag(s, l); } else {
        assert(s.drop_last() =~= Seq::empty());
        assert(s.last() == n);
        assert(flats(s.drop_last(), l) =~= Seq::empty());
        assert(flats(s, l) =~= flat(n.children, l));
    }
}
/// u has what t has to come
pub open spec fn copied<'r, BR, KR, VR>(t: Rs<'r, BR, KR, VR>, u: Items<'r, BR, KR, VR>) -> bool {
    &&& stack_of(u) && u.len() == t.len() && items(lf(u[0])) == lf(t[0]).rest() && forall|i: int| 1 <= i < t.len() ==> items(inn(#[trigger] u[i])) == inn(t[i]).rest()
}
pub proof fn lemma_below_tot<'r, BR, KR, VR>(t: Rs<'r, BR, KR, VR>, u: Items<'r, BR, KR, VR>, n: nat)
    requires copied(t, u), 1 <= n <= t.len()
    ensures below(u, n).to_multiset() =~= lf(t[0]).rest().to_multiset().add(tot(vw(t).take(n - 1), 0))
    decreases n
{
    if n == 1 { assert(vw(t).take(0) =~= Seq::empty()); } else {
        lemma_below_tot(t, u, (n - 1) as nat);
        assert(vw(t).take(n - 1).drop_last() =~= vw(t).take(n - 2));
        assert(items(inn(u[n - 1])) == inn(t[n - 1]).rest());
        assert(nodes(u, n - 1) == vw(t)[n - 2]);
        vstd::seq_lib::lemma_multiset_commutative(below(u, (n - 1) as nat), flats(nodes(u, n - 1), (n - 2) as nat));
    }
}
/// the iterator over a row is well-formed
pub proof fn lemma_row_wf<'l, 'r, BL, BR, KR: Borrow<QR>, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(cap: nat, stack: TreeIter<'r, BR, KR, VR>, filter: JoiningFilter<'l, BL, QL, F>)
    requires stack_of(stack@), fit(stack@, cap), filter.filter.jlaw(), kept::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(stack@, filter)
    ensures forall|row: FilterIter<TreeIter<'r, BR, KR, VR>, QR, JoiningFilter<'l, BL, QL, F>>| row.iter.stack == stack && row.filter == filter ==> #[trigger] row.wf()
{
    assert forall|row: FilterIter<TreeIter<'r, BR, KR, VR>, QR, JoiningFilter<'l, BL, QL, F>>| row.iter.stack == stack && row.filter == filter implies #[trigger] row.wf() by {
        assert(row.iter.stack.stk() == stack@);
        assert(fit(row.iter.stack.stk(), cap));
    }
}
pub proof fn lemma_below<'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, t: Rs<'r, BR, KR, VR>, u: Items<'r, BR, KR, VR>)
    requires copied(t, u), rsound(g, t)
    ensures pend(u).to_multiset() == scope(t, 0), fit(u, g.hr.cap)
{
    lemma_below_tot(t, u, t.len());
    assert(vw(t).take(t.len() - 1) =~= vw(t).skip(0));
    assert(lf(t[0]).rest() =~= lf(t[0]).slice@);
    assert(pend(u).to_multiset() =~= scope(t, 0));
    assert forall|l: int, i: int| 1 <= l < u.len() && 0 <= i < nodes(u, l).len() implies fits((#[trigger] nodes(u, l)[i]).children, (l - 1) as nat, g.hr.cap) by {
        assert(items(inn(u[l])) == inn(t[l]).rest());
        assert(fine(g.hr, inn(t[l]).slice@[inn(t[l]).i + i], (l - 1) as nat));
    }
}
/// the entry e was taken
pub proof fn lemma_ltook<'l, 'r, BL, BR, KL, KR, VL, VR>(g: Lj<BL, BR, KL, KR, VL, VR>, s1: Items<'l, BL, KL, VL>, s2: Items<'l, BL, KL, VL>, t: Rs<'r, BR, KR, VR>, e: (KL, VL))
    requires head(g, s1, t, 0), put_leaf(s1, s2, lf(s2[0])), items(lf(s1[0])) =~= seq![e] + items(lf(s2[0]))
    ensures
        ljoin(g, s2, t), lm(s1) == lm(s2).insert(e), lm(s1).count(e) > 0, forall|x: (KL, VL)| #[trigger] lm(s2).count(x) > 0 ==> lm(s1).count(x) > 0,
        lpm(s1, 0).count(e) > 0, served(g, lpm(s1, 0), scope(t, 0)),
{
    let (m1, m2) = (items(lf(s1[0])), items(lf(s2[0])));
    vstd::seq_lib::lemma_multiset_commutative(seq![e], m2);
    lemma_one_bag(e);
    assert(m1.to_multiset() =~= m2.to_multiset().insert(e));
    assert(vw(s1) =~= vw(s2)) by { assert forall|j: int| 0 <= j < vw(s1).len() implies #[trigger] vw(s1)[j] == vw(s2)[j] by { assert(s2[j + 1] == s1[j + 1]); } }
    assert(lm(s1) =~= lm(s2).insert(e));
    assert(served(g, lpm(s1, 0), scope(t, 0)));
    assert(lpm(s1, 0).count(e) > 0);
    assert forall|k: int| 0 <= k < minh(s2, t) - 1 implies served(g, #[trigger] lpm(s2, k), scope(t, k)) by {
        assert(served(g, lpm(s1, k), scope(t, k)));
        if k == 0 { lemma_served_less(g, lpm(s1, 0), lpm(s2, 0), scope(t, 0)); }
    }
}
pub proof fn lemma_one_bag<T>(e: T)
    ensures seq![e].to_multiset() =~= Multiset::empty().insert(e)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(seq![e] =~= Seq::empty().push(e));
    assert(Seq::<T>::empty().to_multiset().len() == 0);
    assert(Seq::<T>::empty().to_multiset() =~= Multiset::empty());
}
/// what is kept of a sequence
pub proof fn lemma_filter_count<T>(s: Seq<T>, p: spec_fn(T) -> bool, e: T)
    ensures s.filter(p).to_multiset().count(e) == if p(e) { s.to_multiset().count(e) } else { 0 }
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_filter_count(s.drop_last(), p, e);
        assert(s =~= s.drop_last().push(s.last()));
    } else {
        assert(s.filter(p) =~= s);
        assert(s.to_multiset().len() == 0);
    }
}
pub proof fn lemma_lkeeps<'l, BL, BR, KL: Borrow<QL>, KR: Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(g: Lj<BL, BR, KL, KR, VL, VR>, f: JoiningFilter<'l, BL, QL, F>, e: (KL, VL), n: Node<BR, KR, VR>, l: nat)
    requires
        lj_law(g), covered_by(g.hr.cov, n, l), (g.hl.cov)(f.bounds, e), f.key == e.0.borrow_spec(),
        forall|a: KL, b: KR| #[trigger] (g.ok)(a, b) == f.filter.pair_ok(a.borrow_spec(), b.borrow_spec()), forall|a: BL, b: BR| #[trigger] (g.bok)(a, b) == f.filter.bounds_pair_ok(&a, &b),
    ensures keeps::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, n, l)
    decreases l
{
    assert forall|i: int| 0 <= i < flat(n.children, l).len() && SpatialFilter::<BR, QR>::key_ok(&f, (#[trigger] flat(n.children, l)[i]).0.borrow_spec()) implies SpatialFilter::<BR, QR>::bounds_ok(&f, &n.bounds) by {
        let r = flat(n.children, l)[i];
        assert((g.hr.cov)(n.bounds, r));
        assert((g.ok)(e.0, r.0));
        assert((g.bok)(f.bounds, n.bounds));
    }
    if l > 0 {
        assert forall|i: int| 0 <= i < inner(n.children)@.len() implies keeps::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, #[trigger] inner(n.children)@[i], (l - 1) as nat) by {
            lemma_lkeeps::<BL, BR, KL, KR, VL, VR, QL, QR, F>(g, f, e, inner(n.children)@[i], (l - 1) as nat);
        }
    }
}
/// the row of e
pub proof fn lemma_row<'l, 'r, BL, BR, KL: Borrow<QL>, KR: Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(g: Lj<BL, BR, KL, KR, VL, VR>, f0: F, f: JoiningFilter<'l, BL, QL, F>, t: Rs<'r, BR, KR, VR>, u: Items<'r, BR, KR, VR>, e: (KL, VL))
    requires
        tested::<BL, BR, KL, KR, VL, VR, QL, QR, F>(g, f0), lent::<BL, BR, KL, KR, VL, VR, QL>(g, e), f.key == e.0.borrow_spec(), e.0.borrow_spec().bounds_spec(&f.bounds), call_ensures(F::clone, (&f0,), f.filter),
        copied(t, u), rsound(g, t), lj_law(g), forall|r: (KR, VR)| (g.ok)(e.0, r.0) ==> #[trigger] pend(u).to_multiset().count(r) == g.all.count(r),
//%permit         granted(g, e, t, 0),
    ensures
        f.filter.jlaw(), kept::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(u, f),
        row_of::<BL, BR, KL, KR, VR, QL, QR, F>(f0, e.0, sel::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, pend(u)).to_multiset(), g.all),
{
//%permit     assert forall|a: KL, b: KR| #[trigger] (g.may)(a, b) == f.filter.may_pair(a.borrow_spec(), b.borrow_spec()) by {}
//%permit     assert forall|l: int, i: int| 1 <= l < u.len() && 0 <= i < nodes(u, l).len() implies super::iter::permits::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, #[trigger] nodes(u, l)[i], (l - 1) as nat) by {
//%permit         assert(items(inn(u[l])) == inn(t[l]).rest());
//%permit         assert(lperm_all(g, e, inn(t[l]).slice@, (l - 1) as nat));
//%permit         assert(lperm(g, e, inn(t[l]).slice@[inn(t[l]).i + i], (l - 1) as nat));
//%permit         lemma_permits::<BL, BR, KL, KR, VL, VR, QL, QR, F>(g, f, e, nodes(u, l)[i], (l - 1) as nat);
//%permit     }
//%permit     assert(super::iter::may_all::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, items(lf(u[0])))) by {
//%permit         assert forall|i: int| 0 <= i < items(lf(u[0])).len() implies SpatialFilter::<BR, QR>::may_test(&f, (#[trigger] items(lf(u[0]))[i]).0.borrow_spec()) by {
//%permit             let w = lf(t[0]).slice@;
//%permit             assert(items(lf(u[0]))[i] == w[i]);
//%permit             assert((g.may)(e.0, w[i].0));
//%permit         }
//%permit     }
    assert forall|l: int, i: int| 1 <= l < u.len() && 0 <= i < nodes(u, l).len() implies keeps::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, #[trigger] nodes(u, l)[i], (l - 1) as nat) by {
        assert(items(inn(u[l])) == inn(t[l]).rest());
        assert(fine(g.hr, inn(t[l]).slice@[inn(t[l]).i + i], (l - 1) as nat));
        lemma_lkeeps::<BL, BR, KL, KR, VL, VR, QL, QR, F>(g, f, e, nodes(u, l)[i], (l - 1) as nat);
    }
    let m = sel::<BR, KR, VR, QR, JoiningFilter<'l, BL, QL, F>>(f, pend(u)).to_multiset();
    assert forall|r: (KR, VR)| #[trigger] m.count(r) == if f0.pair_ok(e.0.borrow_spec(), r.0.borrow_spec()) { g.all.count(r) } else { 0 } by {
        let p = |x: (KR, VR)| SpatialFilter::<BR, QR>::key_ok(&f, x.0.borrow_spec());
        lemma_filter_count(pend(u), p, r);
        assert((g.ok)(e.0, r.0) == f0.pair_ok(e.0.borrow_spec(), r.0.borrow_spec()));
        assert(m.count(r) == pend(u).filter(p).to_multiset().count(r));
    }
}
//@ endfn
//@ module rtree_left_join from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::JoinFilter, node::*, rtree::*, inner_stack::*, left_join::*, left_join};
//@ only RTree::left_join
//@ rewrite Q0: ?Sized, Q1: ?Sized, Key1: Bounded<B1> + Eq, F: JoinFilter<B, B1, Q0, Q1>, ==> Q0: ?Sized + Bounded<B>, Q1: ?Sized, Key1: Bounded<B1> + Eq, F: JoinFilter<B, B1, Q0, Q1> + Clone,
//@ fn RTree::left_join
    requires self.fits(), other.fits(), left_joinable::<B, B1, Key, Key1, Value, Value1, Q0, Q1, F>(*self, *other, filter)
    ensures res.wf(), res.filter == filter, res.left() == self.entries().to_multiset(), res.all() == other.entries().to_multiset()
//@ text
/// there are covers of the nodes of both trees that the filter agrees with
pub open spec fn left_joinable<BL, BR, KL: Borrow<QL>, KR: Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(t: RTree<BL, KL, VL>, u: RTree<BR, KR, VR>, f: F) -> bool {
    exists|g: Lj<BL, BR, KL, KR, VL, VR>| #[trigger] ready(g, NodeRef { level: t.root.level, node: &t.root.node }, NodeRef { level: u.root.level, node: &u.root.node }) && tested::<BL, BR, KL, KR, VL, VR, QL, QR, F>(g, f) && lented::<BL, BR, KL, KR, VL, VR, QL>(g, t.entries().to_multiset())
}
/// What a join filter and its clones owe two trees: they reject no bounds that contain keys that are accepted,
pub open spec fn left_law<BL: Bounds, BR: Bounds, KL: Bounded<BL> + Borrow<QL>, KR: Bounded<BR> + Borrow<QR>, VL, VR, QL: ?Sized, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(f: F, s: Seq<(KL, VL)>, t: Seq<(KR, VR)>) -> bool {
    &&& forall|x: BL, y: BR, i: int, k: int| 0 <= i < s.len() && 0 <= k < t.len() && #[trigger] ub::<BL, KL>(&s[i].0).contains(x) && #[trigger] ub::<BR, KR>(&t[k].0).contains(y) && f.pair_ok(s[i].0.borrow_spec(), t[k].0.borrow_spec()) ==> f.bounds_pair_ok(&x, &y)
    &&& f.jlaw() && forall|c: F| #[trigger] call_ensures(F::clone, (&f,), c) ==> c.jlaw() && (forall|a: &QL, b: &QR| #[trigger] c.pair_ok(a, b) == f.pair_ok(a, b)) && (forall|a: &BL, b: &BR| #[trigger] c.bounds_pair_ok(a, b) == f.bounds_pair_ok(a, b))
}
/// and the borrowed keys have the bounds of the keys.
pub open spec fn lent_law<BL: Bounds, KL: Bounded<BL> + Borrow<QL>, VL, QL: ?Sized + Bounded<BL>>(s: Seq<(KL, VL)>) -> bool {
    QL::bdlaw() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.borrow_spec().bounds_req() && forall|b: BL| #[trigger] s[i].0.borrow_spec().bounds_spec(&b) ==> ub::<BL, KL>(&s[i].0).contains(b)
}
pub open spec fn cover<B: Bounds, K: Bounded<B>, V>(s: Seq<(K, V)>) -> spec_fn(B, (K, V)) -> bool { |b: B, e: (K, V)| s.contains(e) && ub::<B, K>(&e.0).contains(b) }
/// the bounds of a node contain those of its entries
pub proof fn lemma_cover<B: Bounds + Clone, K: Bounded<B>, V>(s: Seq<(K, V)>, n: Node<B, K, V>, l: nat)
    requires law::<B, K>(), tight::<B, K, V>(n, l), forall|i: int| 0 <= i < flat(n.children, l).len() ==> s.contains(#[trigger] flat(n.children, l)[i])
    ensures covered_by(cover::<B, K, V>(s), n, l)
    decreases l
{
    let c = flat(n.children, l);
    assert forall|i: int| 0 <= i < c.len() implies (cover::<B, K, V>(s))(n.bounds, #[trigger] c[i]) by {
        assert(B::up(n.bounds).contains(n.bounds));
        lemma_kub_leaf::<B, K, V>(c, n.bounds);
    }
    if l > 0 {
        let v = inner(n.children)@;
        let lv = (l - 1) as nat;
        assert forall|i: int| 0 <= i < v.len() implies covered_by(cover::<B, K, V>(s), #[trigger] v[i], lv) by {
            lemma_flats_at(v, i, lv);
            let p = flats(v.take(i), lv);
            let d = flat(v[i].children, lv);
            assert forall|j: int| 0 <= j < d.len() implies s.contains(#[trigger] d[j]) by { assert(c[p.len() + j] == d[j]); }
            lemma_cover::<B, K, V>(s, v[i], lv);
        }
    }
}
//%permit /// b are the bounds of a node, n or below it, that holds e
//%permit pub open spec fn holds_node<B, K, V>(n: Node<B, K, V>, l: nat, b: B, e: (K, V)) -> bool
//%permit     decreases l
//%permit { (n.bounds == b && flat(n.children, l).contains(e)) || (l > 0 && exists|i: int| 0 <= i < inner(n.children)@.len() && holds_node(#[trigger] inner(n.children)@[i], (l - 1) as nat, b, e)) }
//%permit /// b are the bounds of a left group that holds e, or of the key itself
//%permit pub open spec fn hold<B: Bounds, K: Bounded<B> + Borrow<Q>, V, Q: ?Sized + Bounded<B>>(t: RTree<B, K, V>) -> spec_fn(B, (K, V)) -> bool { |b: B, e: (K, V)| (cover::<B, K, V>(t.entries()))(b, e) && (holds_node(t.root.node, t.root.level as nat, b, e) || e.0.borrow_spec().bounds_spec(&b)) }
//%permit pub proof fn lemma_held<B, K, V>(c: spec_fn(B, (K, V)) -> bool, d: spec_fn(B, (K, V)) -> bool, n: Node<B, K, V>, l: nat)
//%permit     requires covered_by(c, n, l), forall|b: B, e: (K, V)| #[trigger] c(b, e) && holds_node(n, l, b, e) ==> d(b, e)
//%permit     ensures covered_by(d, n, l)
//%permit     decreases l
//%permit {
//%permit     assert forall|i: int| 0 <= i < flat(n.children, l).len() implies d(n.bounds, #[trigger] flat(n.children, l)[i]) by { assert(c(n.bounds, flat(n.children, l)[i])); assert(flat(n.children, l).contains(flat(n.children, l)[i])); }
//%permit     if l > 0 {
//%permit         assert forall|i: int| 0 <= i < inner(n.children)@.len() implies covered_by(d, #[trigger] inner(n.children)@[i], (l - 1) as nat) by {
//%permit             assert forall|b: B, e: (K, V)| #[trigger] c(b, e) && holds_node(inner(n.children)@[i], (l - 1) as nat, b, e) implies d(b, e) by { assert(holds_node(n, l, b, e)); }
//%permit             lemma_held(c, d, inner(n.children)@[i], (l - 1) as nat);
//%permit         }
//%permit     }
//%permit }
/// what a left join of t and u by f relies on
pub open spec fn joint<BL: Bounds + Clone, BR: Bounds + Clone, KL: Bounded<BL> + Borrow<QL>, KR: Bounded<BR> + Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(t: RTree<BL, KL, VL>, u: RTree<BR, KR, VR>, f: F) -> Lj<BL, BR, KL, KR, VL, VR> {
    Lj::<BL, BR, KL, KR, VL, VR> {
//%!permit         hl: Hunt { base: 0, cap: t.root.alloc.children.cap as nat, cov: cover::<BL, KL, VL>(t.entries()), ok: all_ok() },
//%!permit         hr: Hunt { base: 0, cap: u.root.alloc.children.cap as nat, cov: cover::<BR, KR, VR>(u.entries()), ok: all_ok() },
//%permit         hl: Hunt { base: 0, cap: t.root.alloc.children.cap as nat, cov: hold::<BL, KL, VL, QL>(t), ok: all_ok(), perm: all_perm() },
//%permit         hr: Hunt { base: 0, cap: u.root.alloc.children.cap as nat, cov: cover::<BR, KR, VR>(u.entries()), ok: all_ok(), perm: all_perm() },
//%permit         may: |a: KL, b: KR| f.may_pair(a.borrow_spec(), b.borrow_spec()),
        ok: |a: KL, b: KR| f.pair_ok(a.borrow_spec(), b.borrow_spec()), bok: |a: BL, b: BR| f.bounds_pair_ok(&a, &b), all: u.entries().to_multiset(),
    }
}
//%permit /// Whatever may be tested with e below a right node whose bounds are accepted neither with the key of e nor with the bounds of a left group that holds it: left-joining needs no permission for it, so it tests none of it.
//%permit pub proof fn theorem_rejected_row<BL: Bounds + Clone, BR: Bounds + Clone, KL: Bounded<BL> + Borrow<QL>, KR: Bounded<BR> + Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(t: RTree<BL, KL, VL>, u: RTree<BR, KR, VR>, f: F, e: (KL, VL), n: Node<BR, KR, VR>, l: nat)
//%permit     requires forall|b: BL| holds_node(t.root.node, t.root.level as nat, b, e) || e.0.borrow_spec().bounds_spec(&b) ==> !#[trigger] f.bounds_pair_ok(&b, &n.bounds)
//%permit     ensures lperm(joint::<BL, BR, KL, KR, VL, VR, QL, QR, F>(t, u, f), e, n, l)
//%permit {
//%permit     let g = joint::<BL, BR, KL, KR, VL, VR, QL, QR, F>(t, u, f);
//%permit     assert forall|b: BL| #[trigger] (g.hl.cov)(b, e) implies !(g.bok)(b, n.bounds) by { assert(!f.bounds_pair_ok(&b, &n.bounds)); }
//%permit }
/// Sound trees can be left-joined by every filter that rejects no bounds with keys it accepts.
pub proof fn theorem_left_joined<BL: Bounds + Clone, BR: Bounds + Clone, KL: Bounded<BL> + Borrow<QL>, KR: Bounded<BR> + Borrow<QR>, VL, VR, QL: ?Sized + Bounded<BL>, QR: ?Sized, F: JoinFilter<BL, BR, QL, QR> + Clone>(t: RTree<BL, KL, VL>, u: RTree<BR, KR, VR>, f: F)
    requires
        t.sound(), u.sound(), law::<BL, KL>(), law::<BR, KR>(), t.root.level + 2 <= usize::MAX, u.root.level + 2 <= usize::MAX,
        left_law::<BL, BR, KL, KR, VL, VR, QL, QR, F>(f, t.entries(), u.entries()), lent_law::<BL, KL, VL, QL>(t.entries()),
//%permit         forall|c: F, a: &QL, b: &QR| #[trigger] call_ensures(F::clone, (&f,), c) ==> #[trigger] c.may_pair(a, b) == f.may_pair(a, b),
//%permit         forall|e: (KL, VL)| #[trigger] t.entries().to_multiset().count(e) > 0 ==> lperm(joint::<BL, BR, KL, KR, VL, VR, QL, QR, F>(t, u, f), e, u.root.node, u.root.level as nat),
    ensures t.fits(), u.fits(), left_joinable::<BL, BR, KL, KR, VL, VR, QL, QR, F>(t, u, f)
{
    theorem_sound(t);
    theorem_sound(u);
    lemma_tight::<BL, KL, VL>(t.root.node, t.root.level as nat, t.root.alloc);
    lemma_tight::<BR, KR, VR>(u.root.node, u.root.level as nat, u.root.alloc);
    let (s, r) = (t.entries(), u.entries());
    lemma_cover::<BL, KL, VL>(s, t.root.node, t.root.level as nat);
    lemma_cover::<BR, KR, VR>(r, u.root.node, u.root.level as nat);
    let g = joint::<BL, BR, KL, KR, VL, VR, QL, QR, F>(t, u, f);
//%permit     assert forall|b: BL, e: (KL, VL)| #[trigger] (cover::<BL, KL, VL>(s))(b, e) && holds_node(t.root.node, t.root.level as nat, b, e) implies (g.hl.cov)(b, e) by {}
//%permit     lemma_held(cover::<BL, KL, VL>(s), g.hl.cov, t.root.node, t.root.level as nat);
    assert(lj_law(g)) by {
        assert forall|b: BL, e: (KL, VL), c: BR, x: (KR, VR)| #[trigger] (g.hl.cov)(b, e) && #[trigger] (g.hr.cov)(c, x) && (g.ok)(e.0, x.0) implies (g.bok)(b, c) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
            let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
            assert(ub::<BL, KL>(&s[i].0).contains(b) && ub::<BR, KR>(&r[k].0).contains(c));
        }
    }
    assert(lented::<BL, BR, KL, KR, VL, VR, QL>(g, s.to_multiset())) by {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert forall|e: (KL, VL)| #[trigger] s.to_multiset().count(e) > 0 implies lent::<BL, BR, KL, KR, VL, VR, QL>(g, e) by {
            assert(s.contains(e));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
            assert(s[i].0.borrow_spec().bounds_req());
            assert forall|b: BL| #[trigger] e.0.borrow_spec().bounds_spec(&b) implies (g.hl.cov)(b, e) by { assert(s[i].0.borrow_spec().bounds_spec(&b)); }
        }
    }
    assert(ready(g, NodeRef { level: t.root.level, node: &t.root.node }, NodeRef { level: u.root.level, node: &u.root.node }));
}
