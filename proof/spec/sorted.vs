//! BinaryHeap is its contract: pop takes an item no other is greater than, as PartialOrd orders them (the metric's PartialOrd and Ord agree); Reverse and the order of pairs are modelled
//@ include rtree.vs
//@ crate
pub mod heap {
    use super::*;
    use core::cmp::Ordering;
    use vstd::std_specs::cmp::*;
    /// PartialOrd of what a heap holds
    pub trait HeapPartial: Sized {
        spec fn hcmp(&self, other: &Self) -> Ordering;
        fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>)
            ensures r == Some(self.hcmp(other));
    }
    /// Ord of what a heap holds
    pub trait HeapOrd: HeapPartial {
        fn cmp(&self, other: &Self) -> (r: Ordering)
            ensures r == self.hcmp(other);
    }
    /// core::cmp::Reverse
    pub struct Reverse<T>(pub T);
    pub open spec fn ncmp(a: usize, b: usize) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    impl<M: Ord> HeapPartial for Reverse<(M, usize)> {
        open spec fn hcmp(&self, other: &Self) -> Ordering {
            if other.0.0.cmp_spec(&self.0.0) == Ordering::Equal { ncmp(other.0.1, self.0.1) } else { other.0.0.cmp_spec(&self.0.0) }
        }
        #[verifier::external_body]
        fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    }
    impl<M: Ord> HeapOrd for Reverse<(M, usize)> {
        #[verifier::external_body]
        fn cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    }
    /// a is not greater than b
    pub open spec fn hle<T: HeapPartial>(a: T, b: T) -> bool { a.hcmp(&b) != Ordering::Greater }
    /// a total preorder
    pub open spec fn heap_law<T: HeapPartial>() -> bool {
        &&& forall|a: T, b: T| (#[trigger] a.hcmp(&b) != Ordering::Less) == hle(b, a)
        &&& forall|a: T, b: T, c: T| #[trigger] hle(a, b) && #[trigger] hle(b, c) ==> hle(a, c)
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct BinaryHeap<T> { v: Vec<T> }
    impl<T> BinaryHeap<T> {
        /// what it holds, in no particular order
        pub uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn new() -> (r: Self)
            ensures r@.len() == 0
        { unimplemented!() }
    }
    pub open spec fn popped<T: HeapPartial>(s: Seq<T>, t: Seq<T>, i: int, x: T) -> bool {
        0 <= i < s.len() && x == s[i] && t == s.remove(i) && (heap_law::<T>() ==> forall|j: int| 0 <= j < s.len() ==> hle(#[trigger] s[j], x))
    }
    impl<T: HeapOrd> BinaryHeap<T> {
        #[verifier::external_body]
        pub fn push(&mut self, x: T)
            ensures final(self)@ == old(self)@.push(x)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn pop(&mut self) -> (r: Option<T>)
            ensures
                r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
                r is Some ==> exists|i: int| #[trigger] popped(old(self)@, final(self)@, i, r->Some_0),
        { unimplemented!() }
    }
}

//@ module ranked from src/iter.rs
//@ uses
use super::*;
use super::heap::*;
use core::cmp;
//@ only Ranked;Ranked<S,T> as HeapPartial;Ranked<S,T> as HeapOrd
//@ rewrite PartialOrd ==> HeapPartial
//@ rewrite Ord ==> HeapOrd
//@ item Ranked
attr #[verifier::reject_recursive_types(T)]
//@ in Ranked<S,T> as HeapPartial
    open spec fn hcmp(&self, other: &Self) -> cmp::Ordering { self.score.hcmp(&other.score) }

//@ module sorted from src/iter.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::heap::*;
use super::{bounds::{Bounds, Bounded}, node::*, ranking::Ranking, ranked::Ranked};
use core::marker::PhantomData;
use core::cmp::Ordering;
use vstd::multiset::Multiset;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
//@ only SortedIterItem;IterHeap;SortedIter;SortedIter::*;SortedIter<'a,B,Key,Value,R> as Iterator;FilterSortedIter;FilterSortedIter::*;FilterSortedIter<'a,B,Key,Value,R,S> as Iterator
//@ rewrite fn next(&mut self) -> Option<Self::Item> ==> fn next_item(&mut self) -> Option<(&'a Key, &'a Value)>
//@ rewrite type Item = (&'a Key, &'a Value); ==>
//@ rewrite for entry in unsafe { node.leaf_children() } ==> for entry in unsafe { node.leaf_children() }.each()
//@ rewrite for child in unsafe { node.inner_children() } ==> for child in unsafe { node.inner_children() }.each()
//@ item SortedIterItem
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item SortedIter
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
attr #[verifier::reject_recursive_types(R)]
//@ item FilterSortedIter
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
attr #[verifier::reject_recursive_types(R)]
attr #[verifier::reject_recursive_types(S)]
//@ item SortedIter<'a,B,Key,Value,R> as Iterator
header <'a, B, Key, Value, R> SortedIter<'a, B, Key, Value, R> where R: Ranking<B, Key>
//@ item FilterSortedIter<'a,B,Key,Value,R,S> as Iterator
header <'a, B, Key, Value, R, S> FilterSortedIter<'a, B, Key, Value, R, S> where R: Ranking<B, Key, Metric = Option<S>>, S: Ord
//@ fn SortedIter::new
    requires root.wf(), root.level < usize::MAX, mlaw::<R::Metric>(), clen(root.node.children, root.level as nat) > 0 ==> tops(plain::<B, Key, R>(ranking), *root.node, root.level as nat)
    ensures res.wf(), res.ranking == ranking, res.left() =~= flat(root.node.children, root.level as nat).to_multiset(),
        forall|m: Multiset<(Key, Value)>| may_rank(plain::<B, Key, R>(ranking), m, *root.node, root.level as nat) ==> #[trigger] hmay(plain::<B, Key, R>(ranking), m, its(res.entries@)),
//@ rewrite entries.push(Ranked { $x }) ==> { let item = Ranked { $x }; proof { x = Some(it(item)); } entries.push(item) }
//@ start
        let ghost mut x = None;
//@ tailbind r
        proof {
            lemma_start(plain::<B, Key, R>(ranking), its(r.entries@), x, root);
            lemma_ks_all::<B, Key, Value, R>(ranking, flat(root.node.children, root.level as nat));
        }
//@ fn FilterSortedIter::new
    requires root.wf(), root.level < usize::MAX, mlaw::<S>(), clen(root.node.children, root.level as nat) > 0 ==> tops(partial::<B, Key, R, S>(ranking), *root.node, root.level as nat)
    ensures res.wf(), res.ranking == ranking, res.left() =~= ks(partial::<B, Key, R, S>(ranking), flat(root.node.children, root.level as nat)).to_multiset(),
        forall|m: Multiset<(Key, Value)>| may_rank(partial::<B, Key, R, S>(ranking), m, *root.node, root.level as nat) ==> #[trigger] hmay(partial::<B, Key, R, S>(ranking), m, its(res.entries@)),
//@ rewrite entries.push(Ranked { $x }) ==> { let item = Ranked { $x }; proof { x = Some(it(item)); } entries.push(item) }
//@ start
        let ghost mut x = None;
//@ tailbind r
        proof { lemma_start(partial::<B, Key, R, S>(ranking), its(r.entries@), x, root); }
//@ fn SortedIter<'a,B,Key,Value,R> as Iterator::next_item
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires old(self).wf(), hmay(plain::<B, Key, R>(old(self).ranking), old(self).left(), its(old(self).entries@))
    ensures
        final(self).wf(), final(self).ranking == old(self).ranking, mays(plain::<B, Key, R>(old(self).ranking), old(self).left(), its(old(self).entries@), its(final(self).entries@)),
        res is None ==> old(self).left() =~= Multiset::empty() && final(self).left() =~= Multiset::empty(),
        res is Some ==> old(self).left() =~= final(self).left().insert((*res->Some_0.0, *res->Some_0.1)) && least(plain::<B, Key, R>(old(self).ranking), old(self).left(), (*res->Some_0.0, *res->Some_0.1)),
//@ start
        let ghost k = plain::<B, Key, R>(self.ranking);
        let ghost m0 = hpend(k, its(self.entries@));
        let ghost mut g0 = self.entries@;
        let ghost mut h0 = its(g0);
//@ loop 0
            invariant
                k == plain::<B, Key, R>(self.ranking), self.ranking == old(self).ranking, mlaw::<R::Metric>(), g0 == self.entries@, h0 == its(g0), hok(k, h0), hpend(k, h0) == m0, m0 == hpend(k, its(old(self).entries@)),
                hmay(k, m0, h0), mays(k, m0, its(old(self).entries@), h0),
            ensures self.entries@.len() == 0
            decreases hw(h0)
//@ loopstart 0
            let ghost g1 = self.entries@;
            let ghost h1 = its(g1);
            let ghost y = choose|y: Item<'a, B, Key, Value, R::Metric>| y.value == value && y.score.0.1 == level && exists|i: int| #[trigger] popped(g0, g1, i, y);
            let ghost x = it(y);
            proof { lemma_out(k, g0, g1, y); lemma_may(k, m0, g0, g1, y); }
//@ loop 1 iter it
                        invariant
                            k == plain::<B, Key, R>(self.ranking), self.ranking == old(self).ranking, level == 1, lv(x) == 1, iok(k, x), it.seq() == leaf(nd(x).children)@.as_ref(),
                            hok(k, its(self.entries@)), hpend(k, its(self.entries@)) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(it.index() as int)).to_multiset()),
                            hw(its(self.entries@)) <= hw(h1) + it.index(), kids(x, h1, its(self.entries@)),
//%permit                             may_rank_in(k, m0, nd(x), 0),
//@ loopstart 1
                            let ghost g2 = self.entries@;
                            let ghost h2 = its(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*entry == leaf(nd(x).children)@[i]); lemma_leaf_step(k, x, i); }
//@ loopend 1
                            proof { lemma_its(g2, self.entries@); lemma_pushed_leaf(k, h1, h2, its(self.entries@), x, i); }
//@ loop 2 iter it
                        invariant
                            k == plain::<B, Key, R>(self.ranking), self.ranking == old(self).ranking, level >= 2, lv(x) == level, iok(k, x), it.seq() == inner(nd(x).children)@.as_ref(),
                            hok(k, its(self.entries@)), hpend(k, its(self.entries@)) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat)).to_multiset()),
                            hw(its(self.entries@)) <= hw(h1) + nws(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat), kids(x, h1, its(self.entries@)),
//@ loopstart 2
                            let ghost g2 = self.entries@;
                            let ghost h2 = its(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*child == inner(nd(x).children)@[i]); lemma_inner_step(k, x, i); }
//@ loopend 2
                            proof { lemma_its(g2, self.entries@); lemma_pushed_inner(k, h1, h2, its(self.entries@), x, i); }
//@ loopend 0
            proof { lemma_opened(k, h0, h1, its(self.entries@), x); lemma_may_kids(k, m0, h0, h1, its(self.entries@), x); g0 = self.entries@; h0 = its(g0); }
//@ fn FilterSortedIter<'a,B,Key,Value,R,S> as Iterator::next_item
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires old(self).wf(), hmay(partial::<B, Key, R, S>(old(self).ranking), old(self).left(), its(old(self).entries@))
    ensures
        final(self).wf(), final(self).ranking == old(self).ranking, mays(partial::<B, Key, R, S>(old(self).ranking), old(self).left(), its(old(self).entries@), its(final(self).entries@)),
        res is None ==> old(self).left() =~= Multiset::empty() && final(self).left() =~= Multiset::empty(),
        res is Some ==> old(self).left() =~= final(self).left().insert((*res->Some_0.0, *res->Some_0.1)) && least(partial::<B, Key, R, S>(old(self).ranking), old(self).left(), (*res->Some_0.0, *res->Some_0.1)),
//@ start
        let ghost k = partial::<B, Key, R, S>(self.ranking);
        let ghost m0 = hpend(k, its(self.entries@));
        let ghost mut g0 = self.entries@;
        let ghost mut h0 = its(g0);
//@ loop 0
            invariant
                k == partial::<B, Key, R, S>(self.ranking), self.ranking == old(self).ranking, mlaw::<S>(), g0 == self.entries@, h0 == its(g0), hok(k, h0), hpend(k, h0) == m0, m0 == hpend(k, its(old(self).entries@)),
                hmay(k, m0, h0), mays(k, m0, its(old(self).entries@), h0),
            ensures self.entries@.len() == 0
            decreases hw(h0)
//@ loopstart 0
            let ghost g1 = self.entries@;
            let ghost h1 = its(g1);
            let ghost y = choose|y: Item<'a, B, Key, Value, S>| y.value == value && y.score.0.1 == level && exists|i: int| #[trigger] popped(g0, g1, i, y);
            let ghost x = it(y);
            proof { lemma_out(k, g0, g1, y); lemma_may(k, m0, g0, g1, y); }
//@ loop 1 iter it
                        invariant
                            k == partial::<B, Key, R, S>(self.ranking), self.ranking == old(self).ranking, level == 1, lv(x) == 1, iok(k, x), it.seq() == leaf(nd(x).children)@.as_ref(),
                            hok(k, its(self.entries@)), hpend(k, its(self.entries@)) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(it.index() as int)).to_multiset()),
                            hw(its(self.entries@)) <= hw(h1) + it.index(), kids(x, h1, its(self.entries@)),
//%permit                             may_rank_in(k, m0, nd(x), 0),
//@ loopstart 1
                            let ghost g2 = self.entries@;
                            let ghost h2 = its(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*entry == leaf(nd(x).children)@[i]); lemma_leaf_step(k, x, i); }
//@ loopend 1
                            proof { lemma_its(g2, self.entries@); lemma_pushed_leaf(k, h1, h2, its(self.entries@), x, i); }
//@ loop 2 iter it
                        invariant
                            k == partial::<B, Key, R, S>(self.ranking), self.ranking == old(self).ranking, level >= 2, lv(x) == level, iok(k, x), it.seq() == inner(nd(x).children)@.as_ref(),
                            hok(k, its(self.entries@)), hpend(k, its(self.entries@)) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat)).to_multiset()),
                            hw(its(self.entries@)) <= hw(h1) + nws(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat), kids(x, h1, its(self.entries@)),
//@ loopstart 2
                            let ghost g2 = self.entries@;
                            let ghost h2 = its(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*child == inner(nd(x).children)@[i]); lemma_inner_step(k, x, i); }
//@ loopend 2
                            proof { lemma_its(g2, self.entries@); lemma_pushed_inner(k, h1, h2, its(self.entries@), x, i); }
//@ loopend 0
            proof { lemma_opened(k, h0, h1, its(self.entries@), x); lemma_may_kids(k, m0, h0, h1, its(self.entries@), x); g0 = self.entries@; h0 = its(g0); }
//@ text
/// what a heap of ranked items relies on: the keys' ranks and the bounds', where they are defined
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(K)]
pub ghost struct Rk<B, K, M> { pub key: spec_fn(K) -> Option<M>, pub bound: spec_fn(B) -> Option<M>, pub kreq: spec_fn(K) -> bool, pub breq: spec_fn(B) -> bool }
pub open spec fn plain<B, K, R: Ranking<B, K>>(g: R) -> Rk<B, K, R::Metric> {
    Rk { key: |k: K| Some(g.rank(&k)), bound: |b: B| Some(g.bound(&b)), kreq: |k: K| g.rank_req(&k), breq: |b: B| g.bound_req(&b) }
}
pub open spec fn partial<B, K, R: Ranking<B, K, Metric = Option<S>>, S: Ord>(g: R) -> Rk<B, K, S> {
    Rk { key: |k: K| g.rank(&k), bound: |b: B| g.bound(&b), kreq: |k: K| g.rank_req(&k), breq: |b: B| g.bound_req(&b) }
}
pub open spec fn mle<M: Ord>(a: M, b: M) -> bool { a.cmp_spec(&b) != Ordering::Greater }
/// the metric is totally preordered
pub open spec fn mlaw<M: Ord>() -> bool {
    &&& forall|a: M, b: M| (#[trigger] a.cmp_spec(&b) != Ordering::Less) == mle(b, a)
    &&& forall|a: M, b: M, c: M| #[trigger] mle(a, b) && #[trigger] mle(b, c) ==> mle(a, c)
}
/// an item of the heap: its rank, its level, and the entry or the node it refers to
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub ghost struct It<B, K, V, M> { pub mt: M, pub lv: nat, pub is_ent: bool, pub is_nd: bool, pub ent: (K, V), pub nd: Node<B, K, V> }
pub type Top<M, X> = Ranked<Reverse<(M, usize)>, X>;
pub type Item<'a, B, K, V, M> = Top<M, SortedIterItem<'a, B, K, V>>;
pub open spec fn it<'a, B, K, V, M>(x: Item<'a, B, K, V, M>) -> It<B, K, V, M> {
    It {
        mt: x.score.0.0, lv: x.score.0.1 as nat, is_ent: is_variant(x.value, "entry"), is_nd: is_variant(x.value, "node"),
        ent: *get_union_field::<SortedIterItem<'a, B, K, V>, &'a (K, V)>(x.value, "entry"), nd: *get_union_field::<SortedIterItem<'a, B, K, V>, &'a Node<B, K, V>>(x.value, "node"),
    }
}
pub open spec fn its<'a, B, K, V, M>(h: Seq<Item<'a, B, K, V, M>>) -> Seq<It<B, K, V, M>> { Seq::new(h.len(), |i: int| it(h[i])) }
pub proof fn lemma_its<'a, B, K, V, M>(h: Seq<Item<'a, B, K, V, M>>, g: Seq<Item<'a, B, K, V, M>>)
    ensures g.len() == h.len() + 1 && g == h.push(g.last()) ==> its(g) == its(h).push(it(g.last()))
{
    if g.len() == h.len() + 1 && g == h.push(g.last()) { assert(its(g) =~= its(h).push(it(g.last()))); }
}
pub open spec fn lv<B, K, V, M>(x: It<B, K, V, M>) -> nat { x.lv }
pub open spec fn mt<B, K, V, M>(x: It<B, K, V, M>) -> M { x.mt }
pub open spec fn ent<B, K, V, M>(x: It<B, K, V, M>) -> (K, V) { x.ent }
pub open spec fn nd<B, K, V, M>(x: It<B, K, V, M>) -> Node<B, K, V> { x.nd }
pub open spec fn fitted<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> bool { exists|cap: nat| #[trigger] fits(c, l, cap) }
/// the entries that have a rank
pub open spec fn ks<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>) -> Seq<(K, V)> { s.filter(|e: (K, V)| (k.key)(e.0) is Some) }
/// the bound of a node is at most the ranks below it, and every rank is defined
pub open spec fn ranks<B, K, V, M: Ord>(k: Rk<B, K, M>, n: Node<B, K, V>, l: nat) -> bool
    decreases l
{
    &&& forall|i: int| 0 <= i < flat(n.children, l).len() && (k.key)((#[trigger] flat(n.children, l)[i]).0) is Some ==>
        (k.bound)(n.bounds) is Some && mle((k.bound)(n.bounds)->Some_0, (k.key)(flat(n.children, l)[i].0)->Some_0)
//%!permit     &&& l == 0 ==> forall|i: int| 0 <= i < leaf(n.children)@.len() ==> (k.kreq)((#[trigger] leaf(n.children)@[i]).0)
    &&& l > 0 ==> forall|i: int| 0 <= i < inner(n.children)@.len() ==> (k.breq)((#[trigger] inner(n.children)@[i]).bounds) && ranks(k, inner(n.children)@[i], (l - 1) as nat)
}
pub open spec fn tops<B, K, V, M: Ord>(k: Rk<B, K, M>, n: Node<B, K, V>, l: nat) -> bool { (k.breq)(n.bounds) && ranks(k, n, l) }
/// an item of the heap: an entry at level 0, a node at the other levels
pub open spec fn iok<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, x: It<B, K, V, M>) -> bool {
    &&& lv(x) == 0 ==> x.is_ent && (k.key)(ent(x).0) == Some(mt(x))
    &&& lv(x) > 0 ==> x.is_nd && fitted(nd(x).children, (lv(x) - 1) as nat) && (k.bound)(nd(x).bounds) == Some(mt(x)) && ranks(k, nd(x), (lv(x) - 1) as nat)
}
pub open spec fn ibag<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, x: It<B, K, V, M>) -> Multiset<(K, V)> {
    if lv(x) == 0 { Multiset::singleton(ent(x)) } else { ks(k, flat(nd(x).children, (lv(x) - 1) as nat)).to_multiset() }
}
pub open spec fn hok<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<It<B, K, V, M>>) -> bool { forall|i: int| 0 <= i < h.len() ==> iok(k, #[trigger] h[i]) }
/// the entries that are still to come
pub open spec fn hpend<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<It<B, K, V, M>>) -> Multiset<(K, V)>
    decreases h.len()
{
    if h.len() == 0 { Multiset::empty() } else { hpend(k, h.drop_last()).add(ibag(k, h.last())) }
}
/// no entry of m has a smaller rank
pub open spec fn least<B, K, V, M: Ord>(k: Rk<B, K, M>, m: Multiset<(K, V)>, e: (K, V)) -> bool {
    (k.key)(e.0) is Some && forall|x: (K, V)| #[trigger] m.count(x) > 0 ==> (k.key)(x.0) is Some && mle((k.key)(e.0)->Some_0, (k.key)(x.0)->Some_0)
}
// ---- C17: what may be ranked while the entries m are still to come
/// none of m ranks lower than the bound of the node
pub open spec fn opens<B, K, V, M: Ord>(k: Rk<B, K, M>, m: Multiset<(K, V)>, n: Node<B, K, V>) -> bool {
    (k.bound)(n.bounds) is Some && forall|e: (K, V)| #[trigger] m.count(e) > 0 && (k.key)(e.0) is Some ==> mle((k.bound)(n.bounds)->Some_0, (k.key)(e.0)->Some_0)
}
/// if that holds for the node, and for all nodes on the way to a key below it, the key may be ranked
pub open spec fn may_rank<B, K, V, M: Ord>(k: Rk<B, K, M>, m: Multiset<(K, V)>, n: Node<B, K, V>, l: nat) -> bool
//%!permit { true }
//%permit     decreases l, 1nat
//%permit { opens(k, m, n) ==> may_rank_in(k, m, n, l) }
/// ... of its children
pub open spec fn may_rank_in<B, K, V, M: Ord>(k: Rk<B, K, M>, m: Multiset<(K, V)>, n: Node<B, K, V>, l: nat) -> bool
//%!permit { true }
//%permit     decreases l, 0nat
//%permit {
//%permit     if l == 0 { forall|i: int| 0 <= i < leaf(n.children)@.len() ==> (k.kreq)((#[trigger] leaf(n.children)@[i]).0) }
//%permit     else { forall|i: int| 0 <= i < inner(n.children)@.len() ==> may_rank(k, m, #[trigger] inner(n.children)@[i], (l - 1) as nat) }
//%permit }
pub open spec fn hmay<B, K, V, M: Ord>(k: Rk<B, K, M>, m: Multiset<(K, V)>, h: Seq<It<B, K, V, M>>) -> bool {
    forall|i: int| 0 <= i < h.len() && lv(#[trigger] h[i]) > 0 ==> may_rank(k, m, nd(h[i]), (lv(h[i]) - 1) as nat)
}
/// the entries of m are among those of w
pub open spec fn among<T>(m: Multiset<T>, w: Multiset<T>) -> bool { forall|e: T| #[trigger] m.count(e) > 0 ==> w.count(e) > 0 }
/// what may be ranked below h may be ranked below g, as long as the entries to come are among m0
pub open spec fn mays<B, K, V, M: Ord>(k: Rk<B, K, M>, m0: Multiset<(K, V)>, h: Seq<It<B, K, V, M>>, g: Seq<It<B, K, V, M>>) -> bool {
    forall|m: Multiset<(K, V)>| among(m, m0) && #[trigger] hmay(k, m, h) ==> hmay(k, m, g)
}
/// to the heap h1 only children of x have been added
pub open spec fn kids<B, K, V, M>(x: It<B, K, V, M>, h1: Seq<It<B, K, V, M>>, h: Seq<It<B, K, V, M>>) -> bool {
    &&& h1.len() <= h.len() && forall|j: int| 0 <= j < h1.len() ==> #[trigger] h[j] == h1[j]
    &&& forall|j: int| h1.len() <= j < h.len() ==> lv(#[trigger] h[j]) == lv(x) - 1 && (lv(x) > 1 ==> is_kid(nd(x), nd(h[j])))
}
pub open spec fn is_kid<B, K, V>(n: Node<B, K, V>, c: Node<B, K, V>) -> bool { exists|i: int| 0 <= i < inner(n.children)@.len() && c == #[trigger] inner(n.children)@[i] }
pub proof fn lemma_may<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, m0: Multiset<(K, V)>, h0: Seq<Item<'a, B, K, V, M>>, h1: Seq<Item<'a, B, K, V, M>>, y: Item<'a, B, K, V, M>)
    requires mlaw::<M>(), hok(k, its(h0)), exists|i: int| #[trigger] popped(h0, h1, i, y), m0 == hpend(k, its(h0)), hmay(k, m0, its(h0))
    ensures mays(k, m0, its(h0), its(h1)), lv(it(y)) > 0 ==> may_rank_in(k, m0, nd(it(y)), (lv(it(y)) - 1) as nat), may_below(k, m0, its(h0), it(y))
{
    let i = choose|i: int| #[trigger] popped(h0, h1, i, y);
    lemma_first(h0, h1, i, y);
    assert(its(h1) =~= its(h0).remove(i));
    assert forall|j: int| 0 <= j < its(h0).len() implies mle(mt(it(y)), mt(#[trigger] its(h0)[j])) by { assert(mle(tm(y), tm(h0[j]))); }
    lemma_may_out(k, m0, its(h0), its(h1), i, it(y));
}
/// the keys of what has the lowest bound may be ranked
pub proof fn lemma_may_out<B, K, V, M: Ord>(k: Rk<B, K, M>, m0: Multiset<(K, V)>, s: Seq<It<B, K, V, M>>, t: Seq<It<B, K, V, M>>, i: int, x: It<B, K, V, M>)
    requires mlaw::<M>(), hok(k, s), out(s, t, i, x), m0 == hpend(k, s), hmay(k, m0, s)
    ensures mays(k, m0, s, t), lv(x) > 0 ==> may_rank_in(k, m0, nd(x), (lv(x) - 1) as nat), may_below(k, m0, s, x)
{
    lemma_least(k, s, mt(x));
    assert(iok(k, s[i]));
    assert forall|m: Multiset<(K, V)>| among(m, m0) && #[trigger] hmay(k, m, s) implies hmay(k, m, t) by {
        assert forall|j: int| 0 <= j < t.len() && lv(#[trigger] t[j]) > 0 implies may_rank(k, m, nd(t[j]), (lv(t[j]) - 1) as nat) by { if j < i { assert(t[j] == s[j]); } else { assert(t[j] == s[j + 1]); } }
    }
    if lv(x) > 0 {
        assert(opens(k, m0, nd(x)));
        assert(may_rank(k, m0, nd(s[i]), (lv(s[i]) - 1) as nat));
        assert forall|m: Multiset<(K, V)>| among(m, m0) && #[trigger] hmay(k, m, s) implies may_rank_in(k, m, nd(x), (lv(x) - 1) as nat) by { assert(may_rank(k, m, nd(s[i]), (lv(s[i]) - 1) as nat)); assert(opens(k, m, nd(x))); }
    }
}
pub open spec fn may_below<B, K, V, M: Ord>(k: Rk<B, K, M>, m0: Multiset<(K, V)>, h0: Seq<It<B, K, V, M>>, x: It<B, K, V, M>) -> bool {
    lv(x) > 0 ==> forall|m: Multiset<(K, V)>| among(m, m0) && #[trigger] hmay(k, m, h0) ==> may_rank_in(k, m, nd(x), (lv(x) - 1) as nat)
}
pub proof fn lemma_may_kids<B, K, V, M: Ord>(k: Rk<B, K, M>, m0: Multiset<(K, V)>, h0: Seq<It<B, K, V, M>>, h1: Seq<It<B, K, V, M>>, h2: Seq<It<B, K, V, M>>, x: It<B, K, V, M>)
    requires lv(x) > 0, mays(k, m0, h0, h1), may_below(k, m0, h0, x), kids(x, h1, h2), hmay(k, m0, h0)
    ensures mays(k, m0, h0, h2), hmay(k, m0, h2)
{
    assert forall|m: Multiset<(K, V)>| among(m, m0) && #[trigger] hmay(k, m, h0) implies hmay(k, m, h2) by {
        assert(hmay(k, m, h1));
        assert(may_rank_in(k, m, nd(x), (lv(x) - 1) as nat));
        assert forall|j: int| 0 <= j < h2.len() && lv(#[trigger] h2[j]) > 0 implies may_rank(k, m, nd(h2[j]), (lv(h2[j]) - 1) as nat) by {
            if j < h1.len() { assert(h2[j] == h1[j]); } else {
                let i = choose|i: int| 0 <= i < inner(nd(x).children)@.len() && nd(h2[j]) == #[trigger] inner(nd(x).children)@[i];
                assert(may_rank(k, m, inner(nd(x).children)@[i], (lv(x) - 2) as nat));
            }
        }
    }
    assert(among(m0, m0));
}
// ---- weight: what is left to look at
pub open spec fn nw<B, K, V>(n: Node<B, K, V>, l: nat) -> nat
    decreases l, 0nat
{
    if l == 0 { 1 + leaf(n.children)@.len() } else { 1 + nws(inner(n.children)@, (l - 1) as nat) }
}
pub open spec fn nws<B, K, V>(s: Seq<Node<B, K, V>>, l: nat) -> nat
    decreases l, 1 + s.len()
{
    if s.len() == 0 { 0 } else { nws(s.drop_last(), l) + nw(s.last(), l) }
}
pub open spec fn iw<'a, B, K, V, M>(x: It<B, K, V, M>) -> nat { if lv(x) == 0 { 1 } else { nw(nd(x), (lv(x) - 1) as nat) } }
pub open spec fn hw<'a, B, K, V, M>(h: Seq<It<B, K, V, M>>) -> nat
    decreases h.len()
{
    if h.len() == 0 { 0 } else { hw(h.drop_last()) + iw(h.last()) }
}
impl<'a, B, Key, Value, R: Ranking<B, Key>> SortedIter<'a, B, Key, Value, R> {
    pub open spec fn wf(&self) -> bool { mlaw::<R::Metric>() && hok(plain::<B, Key, R>(self.ranking), its(self.entries@)) }
    pub open spec fn left(&self) -> Multiset<(Key, Value)> { hpend(plain::<B, Key, R>(self.ranking), its(self.entries@)) }
}
impl<'a, B, Key, Value, R: Ranking<B, Key, Metric = Option<S>>, S: Ord> FilterSortedIter<'a, B, Key, Value, R, S> {
    pub open spec fn wf(&self) -> bool { mlaw::<S>() && hok(partial::<B, Key, R, S>(self.ranking), its(self.entries@)) }
    pub open spec fn left(&self) -> Multiset<(Key, Value)> { hpend(partial::<B, Key, R, S>(self.ranking), its(self.entries@)) }
}
pub open spec fn tm<M, X>(x: Top<M, X>) -> M { x.score.0.0 }
pub proof fn lemma_heap_law<M: Ord, X>()
    requires mlaw::<M>()
    ensures heap_law::<Top<M, X>>()
{
    assert forall|a: Top<M, X>, b: Top<M, X>| (#[trigger] a.hcmp(&b) != Ordering::Less) == hle(b, a) by {
        let (p, q) = (tm(a), tm(b));
        assert(p.cmp_spec(&q) != Ordering::Less == mle(q, p) && q.cmp_spec(&p) != Ordering::Less == mle(p, q));
    }
    assert forall|a: Top<M, X>, b: Top<M, X>, c: Top<M, X>| #[trigger] hle(a, b) && #[trigger] hle(b, c) implies hle(a, c) by {
        let (p, q, r) = (tm(a), tm(b), tm(c));
        assert(q.cmp_spec(&p) != Ordering::Less == mle(p, q) && r.cmp_spec(&q) != Ordering::Less == mle(q, r) && r.cmp_spec(&p) != Ordering::Less == mle(p, r));
        assert(mle(r, q) && mle(q, p)); assert(mle(r, p));
        if mle(p, r) { assert(mle(q, p) && mle(p, r)); assert(mle(q, r)); assert(mle(p, r) && mle(r, q)); assert(mle(p, q)); }
    }
}
/// What is popped ranks no higher than what is in the heap.
pub proof fn lemma_first<M: Ord, X>(h0: Seq<Top<M, X>>, h1: Seq<Top<M, X>>, i: int, x: Top<M, X>)
    requires mlaw::<M>(), popped(h0, h1, i, x)
    ensures forall|j: int| 0 <= j < h0.len() ==> mle(tm(x), tm(#[trigger] h0[j]))
{
    lemma_heap_law::<M, X>();
    assert forall|j: int| 0 <= j < h0.len() implies mle(tm(x), tm(#[trigger] h0[j])) by {
        assert(hle(h0[j], x));
        let (p, q) = (tm(x), tm(h0[j]));
        assert(p.cmp_spec(&q) != Ordering::Greater || p.cmp_spec(&q) == Ordering::Greater);
    }
}
/// t is s without x at i, which ranks no higher than the rest
pub open spec fn out<B, K, V, M: Ord>(s: Seq<It<B, K, V, M>>, t: Seq<It<B, K, V, M>>, i: int, x: It<B, K, V, M>) -> bool {
    0 <= i < s.len() && x == s[i] && t == s.remove(i) && forall|j: int| 0 <= j < s.len() ==> mle(mt(x), mt(#[trigger] s[j]))
}
pub proof fn lemma_out<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h0: Seq<Item<'a, B, K, V, M>>, h1: Seq<Item<'a, B, K, V, M>>, y: Item<'a, B, K, V, M>)
    requires mlaw::<M>(), hok(k, its(h0)), exists|i: int| #[trigger] popped(h0, h1, i, y)
    ensures went(k, its(h0), its(h1), it(y))
{
    let i = choose|i: int| #[trigger] popped(h0, h1, i, y);
    lemma_first(h0, h1, i, y);
    assert(its(h1) =~= its(h0).remove(i));
    assert forall|j: int| 0 <= j < its(h0).len() implies mle(mt(it(y)), mt(#[trigger] its(h0)[j])) by { assert(mle(tm(y), tm(h0[j]))); }
    assert(out(its(h0), its(h1), i, it(y)));
    lemma_popped(k, its(h0), its(h1), it(y));
}
pub proof fn lemma_hpend_at<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<It<B, K, V, M>>, i: int)
    requires 0 <= i < h.len()
    ensures hpend(k, h) =~= hpend(k, h.remove(i)).add(ibag(k, h[i])), hw(h) == hw(h.remove(i)) + iw(h[i])
    decreases h.len()
{
    if i == h.len() - 1 { assert(h.remove(i) =~= h.drop_last()); } else {
        lemma_hpend_at(k, h.drop_last(), i);
        assert(h.remove(i).drop_last() =~= h.drop_last().remove(i));
        assert(h.remove(i).last() == h.last());
    }
}
/// x is gone: what is to come is its entries and those of the rest; an entry is least
pub open spec fn went<B, K, V, M: Ord>(k: Rk<B, K, M>, h0: Seq<It<B, K, V, M>>, h1: Seq<It<B, K, V, M>>, x: It<B, K, V, M>) -> bool {
    &&& iok(k, x) && hok(k, h1) && hpend(k, h0) == hpend(k, h1).add(ibag(k, x)) && hw(h0) == hw(h1) + iw(x)
    &&& lv(x) == 0 ==> (least(k, hpend(k, h0), ent(x)) && hpend(k, h0) == hpend(k, h1).insert(ent(x)))
    &&& lv(x) == 1 ==> (hpend(k, h1) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(0)).to_multiset()))
    &&& lv(x) > 1 ==> (hpend(k, h1) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(0), (lv(x) - 2) as nat)).to_multiset()))
}
pub proof fn lemma_popped<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h0: Seq<It<B, K, V, M>>, h1: Seq<It<B, K, V, M>>, x: It<B, K, V, M>)
    requires mlaw::<M>(), hok(k, h0), exists|i: int| #[trigger] out(h0, h1, i, x)
    ensures went(k, h0, h1, x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_ks_none(k, Seq::<(K, V)>::empty());
    if lv(x) == 1 { assert(leaf(nd(x).children)@.take(0) =~= Seq::empty()); }
    assert(hpend(k, h1) =~= hpend(k, h1).add(Seq::<(K, V)>::empty().to_multiset()));
    let i = choose|i: int| #[trigger] out(h0, h1, i, x);
    lemma_hpend_at(k, h0, i);
    assert(iok(k, h0[i]));
    assert forall|j: int| 0 <= j < h1.len() implies iok(k, #[trigger] h1[j]) by { if j < i { assert(h1[j] == h0[j]); } else { assert(h1[j] == h0[j + 1]); } }
    if lv(x) == 0 {
        lemma_least(k, h0, mt(x));
        assert(hpend(k, h0) =~= hpend(k, h1).insert(ent(x)));
    }
}
pub proof fn lemma_least<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<It<B, K, V, M>>, m: M)
    requires mlaw::<M>(), hok(k, h), forall|j: int| 0 <= j < h.len() ==> mle(m, mt(#[trigger] h[j]))
    ensures forall|e: (K, V)| #[trigger] hpend(k, h).count(e) > 0 ==> (k.key)(e.0) is Some && mle(m, (k.key)(e.0)->Some_0)
    decreases h.len()
{
    if h.len() > 0 {
        assert forall|j: int| 0 <= j < h.drop_last().len() implies iok(k, #[trigger] h.drop_last()[j]) && mle(m, mt(h.drop_last()[j])) by { assert(h.drop_last()[j] == h[j]); }
        lemma_least(k, h.drop_last(), m);
        let x = h[h.len() - 1];
        assert(iok(k, x));
        assert forall|e: (K, V)| #[trigger] ibag(k, x).count(e) > 0 implies (k.key)(e.0) is Some && mle(m, (k.key)(e.0)->Some_0) by {
            if lv(x) > 0 {
                let s = flat(nd(x).children, (lv(x) - 1) as nat);
                lemma_ks_in(k, s, e);
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e;
                assert(mle(m, mt(x)) && mle(mt(x), (k.key)(e.0)->Some_0));
            } else { assert(e == ent(x)); }
        }
        assert(hpend(k, h) == hpend(k, h.drop_last()).add(ibag(k, x)));
        assert forall|e: (K, V)| #[trigger] hpend(k, h).count(e) > 0 implies (k.key)(e.0) is Some && mle(m, (k.key)(e.0)->Some_0) by {
            assert(hpend(k, h.drop_last()).count(e) > 0 || ibag(k, x).count(e) > 0);
        }
    }
}
pub proof fn lemma_ks_in<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, e: (K, V))
    requires ks(k, s).to_multiset().count(e) > 0
    ensures (k.key)(e.0) is Some, exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e
{
    let f = |e: (K, V)| (k.key)(e.0) is Some;
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(ks(k, s).contains(e));
    let j = choose|j: int| 0 <= j < ks(k, s).len() && ks(k, s)[j] == e;
    s.lemma_filter_contains_rev(f, e);
    assert(f(e)) by { s.filter_lemma(f); }
    assert(s.contains(e));
}
pub proof fn lemma_ks_all<B, K, V, R: Ranking<B, K>>(g: R, s: Seq<(K, V)>)
    ensures ks(plain::<B, K, R>(g), s) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_ks_all::<B, K, V, R>(g, s.drop_last()); }
    assert(ks(plain::<B, K, R>(g), s) =~= s);
}
pub proof fn lemma_start<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<It<B, K, V, M>>, x: Option<It<B, K, V, M>>, root: NodeRef<'a, B, K, V>)
    requires
        root.wf(), clen(root.node.children, root.level as nat) > 0 ==> tops(k, *root.node, root.level as nat),
        x is None ==> h.len() == 0 && (clen(root.node.children, root.level as nat) == 0 || (k.bound)(root.node.bounds) is None),
        x is Some ==> h =~= seq![x->Some_0] && clen(root.node.children, root.level as nat) > 0 && (k.bound)(root.node.bounds) == Some(mt(x->Some_0)) && lv(x->Some_0) == root.level + 1 && x->Some_0.is_nd && nd(x->Some_0) == *root.node,
    ensures hok(k, h), hpend(k, h) == ks(k, flat(root.node.children, root.level as nat)).to_multiset()
{
    let s = flat(root.node.children, root.level as nat);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if x is None {
        lemma_ks_none(k, s);
        assert(hpend(k, h) =~= ks(k, s).to_multiset());
    } else {
        let y = x->Some_0;
        assert(h.drop_last() =~= Seq::empty());
        assert(hpend(k, h.drop_last()) =~= Multiset::empty());
        assert(hpend(k, h) =~= ibag(k, y));
        let cap = choose|cap: nat| #[trigger] fits(root.node.children, root.level as nat, cap);
        assert(iok(k, y));
    }
}
pub proof fn lemma_ks_none<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>)
    requires forall|i: int| 0 <= i < s.len() ==> (k.key)((#[trigger] s[i]).0) is None
    ensures ks(k, s) == Seq::<(K, V)>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert((k.key)(s[s.len() - 1].0) is None);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (k.key)((#[trigger] s.drop_last()[i]).0) is None by { assert((k.key)(s[i].0) is None); }
        lemma_ks_none(k, s.drop_last());
    }
    assert(ks(k, s) =~= Seq::<(K, V)>::empty());
}
pub proof fn lemma_ks_add<B, K, V, M>(k: Rk<B, K, M>, a: Seq<(K, V)>, b: Seq<(K, V)>)
    ensures ks(k, a + b) == ks(k, a) + ks(k, b), ks(k, a + b).to_multiset() == ks(k, a).to_multiset().add(ks(k, b).to_multiset())
{
    Seq::filter_distributes_over_add(a, b, |e: (K, V)| (k.key)(e.0) is Some);
    vstd::seq_lib::lemma_multiset_commutative(ks(k, a), ks(k, b));
}
pub proof fn lemma_ks_one<B, K, V, M>(k: Rk<B, K, M>, e: (K, V))
    ensures ks(k, seq![e]).to_multiset() == if (k.key)(e.0) is Some { Multiset::singleton(e) } else { Multiset::<(K, V)>::empty() }
{
    reveal(Seq::filter);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = seq![e];
    assert(s.drop_last() =~= Seq::empty());
    assert(ks(k, s.drop_last()) =~= Seq::empty());
    if (k.key)(e.0) is Some { assert(ks(k, s) =~= Seq::<(K, V)>::empty().push(e)); assert(ks(k, s).to_multiset() =~= Multiset::singleton(e)); } else { assert(ks(k, s) =~= Seq::empty()); assert(ks(k, s).to_multiset() =~= Multiset::empty()); }
}
/// the i-th entry of a leaf
pub proof fn lemma_leaf_step<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, x: It<B, K, V, M>, i: int)
    requires iok(k, x), lv(x) == 1, 0 <= i < leaf(nd(x).children)@.len()
    ensures
//%!permit         (k.kreq)(leaf(nd(x).children)@[i].0),
        ks(k, leaf(nd(x).children)@.take(i + 1)).to_multiset() == ks(k, leaf(nd(x).children)@.take(i)).to_multiset().add(
            if (k.key)(leaf(nd(x).children)@[i].0) is Some { Multiset::singleton(leaf(nd(x).children)@[i]) } else { Multiset::<(K, V)>::empty() }),
{
    let s = leaf(nd(x).children)@;
    assert(s.take(i + 1) =~= s.take(i) + seq![s[i]]);
    lemma_ks_add(k, s.take(i), seq![s[i]]);
    lemma_ks_one(k, s[i]);
}
/// ... has been pushed if it has a rank
pub proof fn lemma_pushed_leaf<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h1: Seq<It<B, K, V, M>>, h2: Seq<It<B, K, V, M>>, h3: Seq<It<B, K, V, M>>, x: It<B, K, V, M>, i: int)
    requires
        iok(k, x), lv(x) == 1, 0 <= i < leaf(nd(x).children)@.len(), hok(k, h2), hpend(k, h2) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(i)).to_multiset()), hw(h2) <= hw(h1) + i,
        (k.key)(leaf(nd(x).children)@[i].0) is None ==> h3 == h2,
        (k.key)(leaf(nd(x).children)@[i].0) is Some ==> h3 == h2.push(h3.last()) && ({ let y = h3.last(); lv(y) == 0 && y.is_ent && ent(y) == leaf(nd(x).children)@[i] && (k.key)(ent(y).0) == Some(mt(y)) }),
    ensures
        hok(k, h3), hpend(k, h3) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(i + 1)).to_multiset()), hw(h3) <= hw(h1) + i + 1,
{
    lemma_leaf_step(k, x, i);
    if h3 != h2 { lemma_push(k, h2, h3.last()); }
    assert(hpend(k, h3) =~= hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(i + 1)).to_multiset()));
}
pub proof fn lemma_push<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<It<B, K, V, M>>, y: It<B, K, V, M>)
    ensures hok(k, h) && iok(k, y) ==> hok(k, h.push(y)), hpend(k, h.push(y)) == hpend(k, h).add(ibag(k, y)), hw(h.push(y)) == hw(h) + iw(y)
{
    assert(h.push(y).drop_last() =~= h);
}
/// the i-th child of an inner node
pub proof fn lemma_inner_step<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, x: It<B, K, V, M>, i: int)
    requires iok(k, x), lv(x) >= 2, 0 <= i < inner(nd(x).children)@.len()
    ensures
        (k.breq)(inner(nd(x).children)@[i].bounds), fitted(inner(nd(x).children)@[i].children, (lv(x) - 2) as nat), ranks(k, inner(nd(x).children)@[i], (lv(x) - 2) as nat),
        ({ let v = inner(nd(x).children)@; let l = (lv(x) - 2) as nat;
           &&& ks(k, flats(v.take(i + 1), l)).to_multiset() == ks(k, flats(v.take(i), l)).to_multiset().add(ks(k, flat(v[i].children, l)).to_multiset())
           &&& (k.bound)(v[i].bounds) is None ==> ks(k, flat(v[i].children, l)).to_multiset() == Multiset::<(K, V)>::empty()
           &&& nws(v.take(i + 1), l) == nws(v.take(i), l) + nw(v[i], l) }),
{
    let v = inner(nd(x).children)@;
    let l = (lv(x) - 2) as nat;
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_flats_at(v, i, l);
    lemma_ks_add(k, flats(v.take(i), l), flat(v[i].children, l));
    assert(v.take(i + 1).drop_last() =~= v.take(i));
    let cap = choose|cap: nat| #[trigger] fits(nd(x).children, (lv(x) - 1) as nat, cap);
    assert(fits(v[i].children, l, cap));
    assert(ranks(k, v[i], l));
    if (k.bound)(v[i].bounds) is None { lemma_ks_none(k, flat(v[i].children, l)); assert(ks(k, flat(v[i].children, l)).to_multiset() =~= Multiset::empty()); }
}
pub proof fn lemma_pushed_inner<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h1: Seq<It<B, K, V, M>>, h2: Seq<It<B, K, V, M>>, h3: Seq<It<B, K, V, M>>, x: It<B, K, V, M>, i: int)
    requires
        iok(k, x), lv(x) >= 2, 0 <= i < inner(nd(x).children)@.len(), hok(k, h2),
        hpend(k, h2) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(i), (lv(x) - 2) as nat)).to_multiset()), hw(h2) <= hw(h1) + nws(inner(nd(x).children)@.take(i), (lv(x) - 2) as nat),
        (k.bound)(inner(nd(x).children)@[i].bounds) is None ==> h3 == h2,
        (k.bound)(inner(nd(x).children)@[i].bounds) is Some ==> h3 == h2.push(h3.last()) && ({ let y = h3.last(); lv(y) == lv(x) - 1 && y.is_nd && nd(y) == inner(nd(x).children)@[i] && (k.bound)(nd(y).bounds) == Some(mt(y)) }),
    ensures
        hok(k, h3), hpend(k, h3) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(i + 1), (lv(x) - 2) as nat)).to_multiset()), hw(h3) <= hw(h1) + nws(inner(nd(x).children)@.take(i + 1), (lv(x) - 2) as nat),
{
    lemma_inner_step(k, x, i);
    if h3 != h2 { lemma_push(k, h2, h3.last()); }
    assert(hpend(k, h3) =~= hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(i + 1), (lv(x) - 2) as nat)).to_multiset()));
}
/// a node's children took its place
pub proof fn lemma_opened<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h0: Seq<It<B, K, V, M>>, h1: Seq<It<B, K, V, M>>, h2: Seq<It<B, K, V, M>>, x: It<B, K, V, M>)
    requires
        lv(x) > 0, hok(k, h2), hpend(k, h0) == hpend(k, h1).add(ibag(k, x)), hw(h0) == hw(h1) + iw(x),
        lv(x) == 1 ==> hpend(k, h2) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(leaf(nd(x).children)@.len() as int)).to_multiset()) && hw(h2) <= hw(h1) + leaf(nd(x).children)@.len(),
        lv(x) > 1 ==> hpend(k, h2) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(inner(nd(x).children)@.len() as int), (lv(x) - 2) as nat)).to_multiset())
            && hw(h2) <= hw(h1) + nws(inner(nd(x).children)@.take(inner(nd(x).children)@.len() as int), (lv(x) - 2) as nat),
    ensures hpend(k, h2) == hpend(k, h0), hw(h2) < hw(h0)
{
    if lv(x) == 1 { assert(leaf(nd(x).children)@.take(leaf(nd(x).children)@.len() as int) =~= leaf(nd(x).children)@); } else { assert(inner(nd(x).children)@.take(inner(nd(x).children)@.len() as int) =~= inner(nd(x).children)@); }
}
/// What a ranking owes a tree with the entries s: it is defined on the keys and on the bounds in between (those that contain a key and
/// are contained in whatever contains all), and the lower bound of such bounds is at most the rank of the key.
pub open spec fn ranking_law<B: Bounds, K: Bounded<B>, V, M: Ord>(k: Rk<B, K, M>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (k.kreq)((#[trigger] s[i]).0)
    &&& forall|x: B, i: int| 0 <= i < s.len() && within::<B, K, V>(x, s) && #[trigger] ub::<B, K>(&s[i].0).contains(x) ==>
        (k.breq)(x) && ((k.key)(s[i].0) is Some ==> (k.bound)(x) is Some && mle((k.bound)(x)->Some_0, (k.key)(s[i].0)->Some_0))
}
pub open spec fn within<B: Bounds, K: Bounded<B>, V>(x: B, s: Seq<(K, V)>) -> bool { forall|y: B| #[trigger] kub::<B, K, V>(s.to_multiset()).contains(y) ==> B::up(x).contains(y) }
pub proof fn lemma_ranks<B: Bounds + Clone, K: Bounded<B>, V, M: Ord>(k: Rk<B, K, M>, n: Node<B, K, V>, l: nat, s: Seq<(K, V)>, p: int)
    requires
        law::<B, K>(), tight::<B, K, V>(n, l), super::rtree::filled(n.children, l), clen(n.children, l) > 0, ranking_law::<B, K, V, M>(k, s),
        0 <= p, p + flat(n.children, l).len() <= s.len(), forall|i: int| 0 <= i < flat(n.children, l).len() ==> #[trigger] flat(n.children, l)[i] == s[p + i],
    ensures tops(k, n, l)
    decreases l
{
    let t = flat(n.children, l);
    super::rtree::lemma_filled(n.children, l);
    let x = n.bounds;
    assert(within::<B, K, V>(x, s)) by {
        assert forall|y: B| #[trigger] kub::<B, K, V>(s.to_multiset()).contains(y) implies B::up(x).contains(y) by {
            lemma_kub_leaf::<B, K, V>(s, y);
            lemma_kub_leaf::<B, K, V>(t, y);
            assert forall|i: int| 0 <= i < t.len() implies ub::<B, K>(&(#[trigger] t[i]).0).contains(y) by { assert(ub::<B, K>(&s[p + i].0).contains(y)); }
        }
    }
    assert(B::up(x).contains(x));
    lemma_kub_leaf::<B, K, V>(t, x);
    assert forall|i: int| 0 <= i < t.len() implies (k.breq)(x) && ((k.key)((#[trigger] t[i]).0) is Some ==> (k.bound)(x) is Some && mle((k.bound)(x)->Some_0, (k.key)(t[i].0)->Some_0)) by {
        assert(ub::<B, K>(&t[i].0).contains(x));
        assert(ub::<B, K>(&s[p + i].0).contains(x));
    }
    assert((k.breq)(x)) by { assert(t[0] == t[0]); }
    if l > 0 {
        let v = inner(n.children)@;
        let lc = (l - 1) as nat;
        assert forall|i: int| 0 <= i < v.len() implies (k.breq)((#[trigger] v[i]).bounds) && ranks(k, v[i], lc) by {
            lemma_flats_at(v, i, lc);
            let q = flats(v.take(i), lc).len() as int;
            let c = flat(v[i].children, lc);
            assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] == s[p + q + j] by { assert(t[q + j] == c[j]); }
            lemma_ranks::<B, K, V, M>(k, v[i], lc, s, p + q);
        }
    } else {
        assert forall|i: int| 0 <= i < leaf(n.children)@.len() implies (k.kreq)((#[trigger] leaf(n.children)@[i]).0) by { assert(t[i] == s[p + i]); }
    }
}
/// What comes next ranks no lower.
pub proof fn theorem_ascending<B, K, V, M: Ord>(k: Rk<B, K, M>, m: Multiset<(K, V)>, e: (K, V), f: (K, V))
    requires least(k, m, e), m.remove(e).count(f) > 0
    ensures mle((k.key)(e.0)->Some_0, (k.key)(f.0)->Some_0)
{
    assert(m.count(f) > 0);
}

//@ module rtree_sorted from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::*, vector::*, ranking::*, node::*, rtree::*, sorted::*, sorted as iter};
use vstd::multiset::Multiset;
//@ only RTree::iter_asc_by; RTree::filter_iter_asc_by; RTree::min_by; RTree::filter_min_by
//@ rewrite iter::SortedIter<B, ==> iter::SortedIter<'_, B,
//@ rewrite iter::FilterSortedIter<B, ==> iter::FilterSortedIter<'_, B,
//@ rewrite .next() ==> .next_item()
//@ fn RTree::iter_asc_by
    requires self.rankable(plain::<B, Key, R>(ranking))
    ensures res.wf(), res.ranking == ranking, res.left() =~= self.entries().to_multiset(),
        forall|m: Multiset<(Key, Value)>| may_rank(plain::<B, Key, R>(ranking), m, self.root.node, self.root.level as nat) ==> #[trigger] hmay(plain::<B, Key, R>(ranking), m, its(res.entries@)),
//@ fn RTree::filter_iter_asc_by
    requires self.rankable(partial::<B, Key, R, S>(ranking))
    ensures res.wf(), res.ranking == ranking, res.left() =~= ks(partial::<B, Key, R, S>(ranking), self.entries()).to_multiset(),
        forall|m: Multiset<(Key, Value)>| may_rank(partial::<B, Key, R, S>(ranking), m, self.root.node, self.root.level as nat) ==> #[trigger] hmay(partial::<B, Key, R, S>(ranking), m, its(res.entries@)),
//@ fn RTree::min_by
    requires self.rankable(plain::<B, Key, R>(ranking)), may_rank(plain::<B, Key, R>(ranking), self.entries().to_multiset(), self.root.node, self.root.level as nat)
    ensures
        res is None ==> self.entries().len() == 0,
        res is Some ==> least(plain::<B, Key, R>(ranking), self.entries().to_multiset(), (*res->Some_0.0, *res->Some_0.1)) && self.entries().to_multiset().count((*res->Some_0.0, *res->Some_0.1)) > 0,
//@ tailbind r
        proof { lemma_none(self.entries()); }
//@ fn RTree::filter_min_by
    requires self.rankable(partial::<B, Key, R, S>(ranking)), may_rank(partial::<B, Key, R, S>(ranking), ks(partial::<B, Key, R, S>(ranking), self.entries()).to_multiset(), self.root.node, self.root.level as nat)
    ensures
        res is None ==> ks(partial::<B, Key, R, S>(ranking), self.entries()).len() == 0,
        res is Some ==> least(partial::<B, Key, R, S>(ranking), ks(partial::<B, Key, R, S>(ranking), self.entries()).to_multiset(), (*res->Some_0.0, *res->Some_0.1))
            && ks(partial::<B, Key, R, S>(ranking), self.entries()).to_multiset().count((*res->Some_0.0, *res->Some_0.1)) > 0,
//@ tailbind r
        proof { lemma_none(ks(partial::<B, Key, R, S>(ranking), self.entries())); }
//@ text
impl<B, Key, Value> RTree<B, Key, Value> {
    /// what ranked iteration asks for
    pub open spec fn rankable<M: Ord>(&self, k: Rk<B, Key, M>) -> bool {
        self.fits() && self.filled() && mlaw::<M>() && self.root.level < usize::MAX && (clen(self.root.node.children, self.root.level as nat) > 0 ==> tops(k, self.root.node, self.root.level as nat))
    }
}
pub proof fn lemma_none<T>(s: Seq<T>)
    ensures s.to_multiset() =~= Multiset::empty() ==> s.len() == 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.to_multiset() =~= Multiset::empty() { assert(s.to_multiset().len() == 0); }
}
/// Sound trees can be ranked by every ranking whose lower bounds are no higher than the ranks of the keys in them.
pub proof fn theorem_ranked<B: Bounds + Clone, K: Bounded<B>, V, M: Ord>(t: RTree<B, K, V>, k: Rk<B, K, M>)
    requires t.sound(), law::<B, K>(), mlaw::<M>(), ranking_law::<B, K, V, M>(k, t.entries()), t.root.level < usize::MAX
    ensures t.rankable(k)
{
    theorem_sound(t);
    lemma_tight::<B, K, V>(t.root.node, t.root.level as nat, t.root.alloc);
    if clen(t.root.node.children, t.root.level as nat) > 0 {
        lemma_ranks::<B, K, V, M>(k, t.root.node, t.root.level as nat, t.entries(), 0);
    }
}
/// The distance to a point ranks trees of points lawfully, as long as the distances are representable.
pub proof fn theorem_euclidean_points<V, const D: usize>(r: EuclideanDistanceRanking<SVec<i64, D>, i64>, s: Seq<(SVec<i64, D>, V)>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.dist_req(&r.point)
    ensures ranking_law::<SAABB<i64, D>, SVec<i64, D>, V, i64>(plain::<SAABB<i64, D>, SVec<i64, D>, EuclideanDistanceRanking<SVec<i64, D>, i64>>(r), s), mlaw::<i64>()
{
    assert forall|x: SAABB<i64, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<i64, D>, SVec<i64, D>>(&s[i].0).contains(x) implies
        x.dist_req(&r.point) && x.dist(&r.point) <= s[i].0.dist(&r.point) by {
        let key = s[i].0;
        let b = AABB { min: key, max: key };
        assert(key.bounds_spec(&b));
        assert(SAABB::<i64, D>::up(b).contains(x));
        assert(in_box(x, key)) by {
            assert forall|k: int| #![trigger x.min.lek(&key, k)] #![trigger key.lek(&x.max, k)] 0 <= k < D implies x.min.lek(&key, k) && key.lek(&x.max, k) by { assert(x.min.lek(&b.min, k) && b.max.lek(&x.max, k)); }
        }
        theorem_box_no_farther_than_its_points(x, key, r.point);
    }
}
/// ... and trees of boxes.
pub proof fn theorem_euclidean_boxes<V, const D: usize>(r: EuclideanDistanceRanking<SVec<i64, D>, i64>, s: Seq<(SAABB<i64, D>, V)>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.dist_req(&r.point)
    ensures ranking_law::<SAABB<i64, D>, SAABB<i64, D>, V, i64>(plain::<SAABB<i64, D>, SAABB<i64, D>, EuclideanDistanceRanking<SVec<i64, D>, i64>>(r), s), mlaw::<i64>()
{
    assert forall|x: SAABB<i64, D>, i: int| 0 <= i < s.len() && #[trigger] ub::<SAABB<i64, D>, SAABB<i64, D>>(&s[i].0).contains(x) implies
        x.dist_req(&r.point) && x.dist(&r.point) <= s[i].0.dist(&r.point) by {
        let key = s[i].0;
        assert(key.bounds_spec(&key));
        assert(SAABB::<i64, D>::up(key).contains(x));
        theorem_box_no_farther_than_its_boxes(x, key, r.point);
    }
}
