//! what a heap's references point to stays as it is when the heap is dropped
//@ include sorted.vs
//@ module sortedmut from src/iter.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::heap::*;
use super::{bounds::{Bounds, Bounded}, node::*, ranking::Ranking, ranked::Ranked, sorted::*};
use core::marker::PhantomData;
use core::cmp::Ordering;
use vstd::multiset::Multiset;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
//@ only SortedIterItemMut;SortedIterMut;SortedIterMut::*;SortedIterMut<'a,B,Key,Value,R> as Iterator;FilterSortedIterMut;FilterSortedIterMut::*;FilterSortedIterMut<'a,B,Key,Value,R,S> as Iterator
//@ rewrite fn next(&mut self) -> Option<Self::Item> ==> fn next_item(&mut self) -> Option<(&'a Key, &'a mut Value)>
//@ rewrite type Item = (&'a Key, &'a mut Value); ==>
//@ rewrite for entry in unsafe { node.leaf_children_mut() } ==> for entry in unsafe { node.leaf_children_mut() }.each_mut()
//@ rewrite for child in unsafe { node.inner_children_mut() } ==> for child in unsafe { node.inner_children_mut() }.each_mut()
//@ item SortedIterItemMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item SortedIterMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
attr #[verifier::reject_recursive_types(R)]
//@ item FilterSortedIterMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
attr #[verifier::reject_recursive_types(R)]
attr #[verifier::reject_recursive_types(S)]
//@ item SortedIterMut<'a,B,Key,Value,R> as Iterator
header <'a, B, Key, Value, R> SortedIterMut<'a, B, Key, Value, R> where R: Ranking<B, Key>
//@ item FilterSortedIterMut<'a,B,Key,Value,R,S> as Iterator
header <'a, B, Key, Value, R, S> FilterSortedIterMut<'a, B, Key, Value, R, S> where R: Ranking<B, Key, Metric = Option<S>>, S: Ord
//@ fn SortedIterMut::new
    requires fitted(root.node.children, root.level as nat), root.level < usize::MAX, mlaw::<R::Metric>(), clen(root.node.children, root.level as nat) > 0 ==> tops(plain::<B, Key, R>(ranking), *root.node, root.level as nat)
    ensures
        res.wf(), res.ranking == ranking, res.left() =~= flat(old(root.node).children, root.level as nat).to_multiset(),
        began(plain::<B, Key, R>(ranking), res.entries@, *old(root.node), *final(root.node), root.level as nat),
        forall|m: Multiset<(Key, Value)>| may_rank(plain::<B, Key, R>(ranking), m, *old(root.node), root.level as nat) ==> #[trigger] hmay(plain::<B, Key, R>(ranking), m, itms(res.entries@)),
//@ rewrite entries.push(Ranked { $x }) ==> { let item = Ranked { $x }; proof { x = Some(item); } entries.push(item) }
//@ start
        let ghost mut x = None;
        let ghost n0 = *root.node;
        let ghost l0 = root.level as nat;
//@ tailbind r
        proof {
            lemma_start_mut(plain::<B, Key, R>(ranking), r.entries@, x, n0, *final(root.node), l0);
            lemma_ks_all::<B, Key, Value, R>(ranking, flat(n0.children, l0));
        }
//@ fn SortedIterMut<'a,B,Key,Value,R> as Iterator::next_item
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires old(self).wf(), hmay(plain::<B, Key, R>(old(self).ranking), old(self).left(), itms(old(self).entries@))
    ensures
        final(self).wf(), final(self).ranking == old(self).ranking, mays(plain::<B, Key, R>(old(self).ranking), old(self).left(), itms(old(self).entries@), itms(final(self).entries@)),
        res is None ==> old(self).left() =~= Multiset::empty() && final(self).left() =~= Multiset::empty() && final(self).entries@.len() == 0
            && hquiet(plain::<B, Key, R>(old(self).ranking), pts(old(self).entries@)) && hp(plain::<B, Key, R>(old(self).ranking), pts(old(self).entries@)) == Multiset::empty(),
        res is Some ==> old(self).left() =~= final(self).left().insert((*res->Some_0.0, *res->Some_0.1)) && least(plain::<B, Key, R>(old(self).ranking), old(self).left(), (*res->Some_0.0, *res->Some_0.1))
            && given(plain::<B, Key, R>(old(self).ranking), pts(old(self).entries@), pts(final(self).entries@), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ start
        let ghost k = plain::<B, Key, R>(self.ranking);
        let ghost m0 = hpend(k, itms(self.entries@));
        let ghost gg = self.entries@;
        let ghost mut g0 = self.entries@;
        let ghost mut h0 = itms(g0);
//@ loop 0
            invariant
                k == plain::<B, Key, R>(self.ranking), self.ranking == old(self).ranking, mlaw::<R::Metric>(), g0 == self.entries@, h0 == itms(g0), hok(k, h0), hpend(k, h0) == m0, m0 == hpend(k, itms(old(self).entries@)),
                hmay(k, m0, h0), mays(k, m0, itms(old(self).entries@), h0),
                gg == old(self).entries@, led(k, pts(gg), pts(g0)),
            ensures self.entries@.len() == 0
            decreases hw(h0)
//@ loopstart 0
            let ghost g1 = self.entries@;
            let ghost h1 = itms(g1);
            let ghost y = choose|y: ItemMut<'a, B, Key, Value, R::Metric>| y.value == value && y.score.0.1 == level && exists|i: int| #[trigger] popped(g0, g1, i, y);
            let ghost x = itm(y);
            proof { lemma_out_mut(k, g0, g1, y); lemma_may_mut(k, m0, g0, g1, y); }
//@ loop 1 iter it
                        invariant
                            k == plain::<B, Key, R>(self.ranking), self.ranking == old(self).ranking, level == 1, lv(x) == 1, iok(k, x), x == itm(y), over(it.seq(), leaf(pt(y).n0.children)@, leaf(pt(y).n1.children)@),
                            hok(k, itms(self.entries@)), hpend(k, itms(self.entries@)) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(it.index() as int)).to_multiset()),
                            hw(itms(self.entries@)) <= hw(h1) + it.index(), kids(x, h1, itms(self.entries@)),
//%permit                             may_rank_in(k, m0, nd(x), 0),
                            spread(k, pts(self.entries@), pts(g1), leaf(pt(y).n0.children)@.take(it.index() as int), leaf(pt(y).n1.children)@.take(it.index() as int)),
//@ loopstart 1
                            let ghost g2 = self.entries@;
                            let ghost h2 = itms(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*entry == leaf(nd(x).children)@[i]); assert(*final(entry) == leaf(pt(y).n1.children)@[i]); lemma_leaf_step(k, x, i); }
//@ loopend 1
                            proof { lemma_itms(g2, self.entries@); super::sorted::lemma_pushed_leaf(k, h1, h2, itms(self.entries@), x, i); lemma_spread(k, pts(g2), pts(self.entries@), pts(g1), leaf(pt(y).n0.children)@, leaf(pt(y).n1.children)@, i); }
//@ loop 2 iter it
                        invariant
                            k == plain::<B, Key, R>(self.ranking), self.ranking == old(self).ranking, level >= 2, lv(x) == level, iok(k, x), x == itm(y), over(it.seq(), inner(pt(y).n0.children)@, inner(pt(y).n1.children)@),
                            hok(k, itms(self.entries@)), hpend(k, itms(self.entries@)) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat)).to_multiset()),
                            hw(itms(self.entries@)) <= hw(h1) + nws(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat), kids(x, h1, itms(self.entries@)),
                            spreads(k, pts(self.entries@), pts(g1), inner(pt(y).n0.children)@.take(it.index() as int), inner(pt(y).n1.children)@.take(it.index() as int), (lv(x) - 2) as nat),
//@ loopstart 2
                            let ghost g2 = self.entries@;
                            let ghost h2 = itms(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*child == inner(nd(x).children)@[i]); assert(*final(child) == inner(pt(y).n1.children)@[i]); lemma_inner_step(k, x, i); }
//@ loopend 2
                            proof { lemma_itms(g2, self.entries@); super::sorted::lemma_pushed_inner(k, h1, h2, itms(self.entries@), x, i); lemma_spreads(k, pts(g2), pts(self.entries@), pts(g1), inner(pt(y).n0.children)@, inner(pt(y).n1.children)@, i, x); }
//@ rewrite return Some((&entry.0, &mut entry.1)); ==> let taken = Some((&entry.0, &mut entry.1)); return taken;
//@ before return taken;
                proof { lemma_given(k, pts(gg), pts(g0), pts(g1), pt(y), *taken->Some_0.0, *taken->Some_0.1, *final(taken->Some_0.1)); }
//@ loopend 0
            proof { lemma_opened(k, h0, h1, itms(self.entries@), x); lemma_may_kids(k, m0, h0, h1, itms(self.entries@), x); lemma_opened_mut(k, pts(gg), pts(g0), pts(g1), pts(self.entries@), pt(y), x); g0 = self.entries@; h0 = itms(g0); }
//@ fn FilterSortedIterMut::new
    requires fitted(root.node.children, root.level as nat), root.level < usize::MAX, mlaw::<S>(), clen(root.node.children, root.level as nat) > 0 ==> tops(partial::<B, Key, R, S>(ranking), *root.node, root.level as nat)
    ensures
        res.wf(), res.ranking == ranking, res.left() =~= ks(partial::<B, Key, R, S>(ranking), flat(old(root.node).children, root.level as nat)).to_multiset(),
        began(partial::<B, Key, R, S>(ranking), res.entries@, *old(root.node), *final(root.node), root.level as nat),
        forall|m: Multiset<(Key, Value)>| may_rank(partial::<B, Key, R, S>(ranking), m, *old(root.node), root.level as nat) ==> #[trigger] hmay(partial::<B, Key, R, S>(ranking), m, itms(res.entries@)),
//@ rewrite entries.push(Ranked { $x }) ==> { let item = Ranked { $x }; proof { x = Some(item); } entries.push(item) }
//@ start
        let ghost mut x = None;
        let ghost n0 = *root.node;
        let ghost l0 = root.level as nat;
//@ tailbind r
        proof {
            lemma_start_mut(partial::<B, Key, R, S>(ranking), r.entries@, x, n0, *final(root.node), l0);
            
        }
//@ fn FilterSortedIterMut<'a,B,Key,Value,R,S> as Iterator::next_item
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires old(self).wf(), hmay(partial::<B, Key, R, S>(old(self).ranking), old(self).left(), itms(old(self).entries@))
    ensures
        final(self).wf(), final(self).ranking == old(self).ranking, mays(partial::<B, Key, R, S>(old(self).ranking), old(self).left(), itms(old(self).entries@), itms(final(self).entries@)),
        res is None ==> old(self).left() =~= Multiset::empty() && final(self).left() =~= Multiset::empty() && final(self).entries@.len() == 0
            && hquiet(partial::<B, Key, R, S>(old(self).ranking), pts(old(self).entries@)) && hp(partial::<B, Key, R, S>(old(self).ranking), pts(old(self).entries@)) == Multiset::empty(),
        res is Some ==> old(self).left() =~= final(self).left().insert((*res->Some_0.0, *res->Some_0.1)) && least(partial::<B, Key, R, S>(old(self).ranking), old(self).left(), (*res->Some_0.0, *res->Some_0.1))
            && given(partial::<B, Key, R, S>(old(self).ranking), pts(old(self).entries@), pts(final(self).entries@), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ start
        let ghost k = partial::<B, Key, R, S>(self.ranking);
        let ghost m0 = hpend(k, itms(self.entries@));
        let ghost gg = self.entries@;
        let ghost mut g0 = self.entries@;
        let ghost mut h0 = itms(g0);
//@ loop 0
            invariant
                k == partial::<B, Key, R, S>(self.ranking), self.ranking == old(self).ranking, mlaw::<S>(), g0 == self.entries@, h0 == itms(g0), hok(k, h0), hpend(k, h0) == m0, m0 == hpend(k, itms(old(self).entries@)),
                hmay(k, m0, h0), mays(k, m0, itms(old(self).entries@), h0),
                gg == old(self).entries@, led(k, pts(gg), pts(g0)),
            ensures self.entries@.len() == 0
            decreases hw(h0)
//@ loopstart 0
            let ghost g1 = self.entries@;
            let ghost h1 = itms(g1);
            let ghost y = choose|y: ItemMut<'a, B, Key, Value, S>| y.value == value && y.score.0.1 == level && exists|i: int| #[trigger] popped(g0, g1, i, y);
            let ghost x = itm(y);
            proof { lemma_out_mut(k, g0, g1, y); lemma_may_mut(k, m0, g0, g1, y); }
//@ loop 1 iter it
                        invariant
                            k == partial::<B, Key, R, S>(self.ranking), self.ranking == old(self).ranking, level == 1, lv(x) == 1, iok(k, x), x == itm(y), over(it.seq(), leaf(pt(y).n0.children)@, leaf(pt(y).n1.children)@),
                            hok(k, itms(self.entries@)), hpend(k, itms(self.entries@)) == hpend(k, h1).add(ks(k, leaf(nd(x).children)@.take(it.index() as int)).to_multiset()),
                            hw(itms(self.entries@)) <= hw(h1) + it.index(), kids(x, h1, itms(self.entries@)),
//%permit                             may_rank_in(k, m0, nd(x), 0),
                            spread(k, pts(self.entries@), pts(g1), leaf(pt(y).n0.children)@.take(it.index() as int), leaf(pt(y).n1.children)@.take(it.index() as int)),
//@ loopstart 1
                            let ghost g2 = self.entries@;
                            let ghost h2 = itms(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*entry == leaf(nd(x).children)@[i]); assert(*final(entry) == leaf(pt(y).n1.children)@[i]); lemma_leaf_step(k, x, i); }
//@ loopend 1
                            proof { lemma_itms(g2, self.entries@); super::sorted::lemma_pushed_leaf(k, h1, h2, itms(self.entries@), x, i); lemma_spread(k, pts(g2), pts(self.entries@), pts(g1), leaf(pt(y).n0.children)@, leaf(pt(y).n1.children)@, i); }
//@ loop 2 iter it
                        invariant
                            k == partial::<B, Key, R, S>(self.ranking), self.ranking == old(self).ranking, level >= 2, lv(x) == level, iok(k, x), x == itm(y), over(it.seq(), inner(pt(y).n0.children)@, inner(pt(y).n1.children)@),
                            hok(k, itms(self.entries@)), hpend(k, itms(self.entries@)) == hpend(k, h1).add(ks(k, flats(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat)).to_multiset()),
                            hw(itms(self.entries@)) <= hw(h1) + nws(inner(nd(x).children)@.take(it.index() as int), (lv(x) - 2) as nat), kids(x, h1, itms(self.entries@)),
                            spreads(k, pts(self.entries@), pts(g1), inner(pt(y).n0.children)@.take(it.index() as int), inner(pt(y).n1.children)@.take(it.index() as int), (lv(x) - 2) as nat),
//@ loopstart 2
                            let ghost g2 = self.entries@;
                            let ghost h2 = itms(g2);
                            let ghost i = it.index() as int;
                            proof { assert(*child == inner(nd(x).children)@[i]); assert(*final(child) == inner(pt(y).n1.children)@[i]); lemma_inner_step(k, x, i); }
//@ loopend 2
                            proof { lemma_itms(g2, self.entries@); super::sorted::lemma_pushed_inner(k, h1, h2, itms(self.entries@), x, i); lemma_spreads(k, pts(g2), pts(self.entries@), pts(g1), inner(pt(y).n0.children)@, inner(pt(y).n1.children)@, i, x); }
//@ rewrite return Some((&entry.0, &mut entry.1)); ==> let taken = Some((&entry.0, &mut entry.1)); return taken;
//@ before return taken;
                proof { lemma_given(k, pts(gg), pts(g0), pts(g1), pt(y), *taken->Some_0.0, *taken->Some_0.1, *final(taken->Some_0.1)); }
//@ loopend 0
            proof { lemma_opened(k, h0, h1, itms(self.entries@), x); lemma_may_kids(k, m0, h0, h1, itms(self.entries@), x); lemma_opened_mut(k, pts(gg), pts(g0), pts(g1), pts(self.entries@), pt(y), x); g0 = self.entries@; h0 = itms(g0); }
//@ text
pub type ItemMut<'a, B, K, V, M> = Top<M, SortedIterItemMut<'a, B, K, V>>;
pub open spec fn itm<'a, B, K, V, M>(x: ItemMut<'a, B, K, V, M>) -> It<B, K, V, M> {
    It {
        mt: x.score.0.0, lv: x.score.0.1 as nat, is_ent: is_variant(x.value, "entry"), is_nd: is_variant(x.value, "node"),
        ent: *get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut (K, V)>(x.value, "entry"), nd: *get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut Node<B, K, V>>(x.value, "node"),
    }
}
pub open spec fn itms<'a, B, K, V, M>(h: Seq<ItemMut<'a, B, K, V, M>>) -> Seq<It<B, K, V, M>> { Seq::new(h.len(), |i: int| itm(h[i])) }
/// an item, as it is and as it becomes
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub ghost struct Pt<B, K, V> { pub lv: nat, pub e0: (K, V), pub e1: (K, V), pub n0: Node<B, K, V>, pub n1: Node<B, K, V> }
#[verifier::prophetic]
pub open spec fn pt<'a, B, K, V, M>(x: ItemMut<'a, B, K, V, M>) -> Pt<B, K, V> {
    let e = get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut (K, V)>(x.value, "entry");
    let n = get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut Node<B, K, V>>(x.value, "node");
    Pt { lv: x.score.0.1 as nat, e0: *e, e1: *final(e), n0: *n, n1: *final(n) }
}
#[verifier::prophetic]
pub open spec fn pts<'a, B, K, V, M>(h: Seq<ItemMut<'a, B, K, V, M>>) -> Seq<Pt<B, K, V>> { Seq::new(h.len(), |i: int| pt(h[i])) }
/// a sequence of references to the items of s, which become those of t
#[verifier::prophetic]
pub open spec fn over<'a, T>(r: Seq<&'a mut T>, s: Seq<T>, t: Seq<T>) -> bool {
    r.len() == s.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == s[i] && *final(r[i]) == t[i]
}
/// the entries, with the values they have and the values they get
pub open spec fn zip<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>) -> Seq<(K, (V, V))> { Seq::new(s.len(), |i: int| (s[i].0, (s[i].1, t[i].1))) }
/// ... of those that have a rank
pub open spec fn kz<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, t: Seq<(K, V)>) -> Multiset<(K, (V, V))> { ks(k, zip(s, t)).to_multiset() }
/// keys stay, and entries without a rank stay as they are
pub open spec fn calm<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool {
    s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> s[i].0 == t[i].0 && ((k.key)(s[i].0) is None ==> t[i] == s[i])
}
pub open spec fn likes<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> like(#[trigger] s[i], t[i], l) }
pub open spec fn calms<B, K, V, M>(k: Rk<B, K, M>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat) -> bool { like(n0, n1, l) && calm(k, flat(n0.children, l), flat(n1.children, l)) }
/// only values that have a rank change
pub open spec fn quiet<B, K, V, M>(k: Rk<B, K, M>, p: Pt<B, K, V>) -> bool { if p.lv == 0 { p.e0.0 == p.e1.0 } else { calms(k, p.n0, p.n1, (p.lv - 1) as nat) } }
pub open spec fn pb<B, K, V, M>(k: Rk<B, K, M>, p: Pt<B, K, V>) -> Multiset<(K, (V, V))> {
    if p.lv == 0 { Multiset::singleton((p.e0.0, (p.e0.1, p.e1.1))) } else { kz(k, flat(p.n0.children, (p.lv - 1) as nat), flat(p.n1.children, (p.lv - 1) as nat)) }
}
pub open spec fn hquiet<B, K, V, M>(k: Rk<B, K, M>, h: Seq<Pt<B, K, V>>) -> bool { forall|i: int| 0 <= i < h.len() ==> quiet(k, #[trigger] h[i]) }
/// the entries that are still to come, with the values they have and the values they get
pub open spec fn hp<B, K, V, M>(k: Rk<B, K, M>, h: Seq<Pt<B, K, V>>) -> Multiset<(K, (V, V))>
    decreases h.len()
{
    if h.len() == 0 { Multiset::empty() } else { hp(k, h.drop_last()).add(pb(k, h.last())) }
}
/// From heap s to heap t, no reference is lost that something is written through.
pub open spec fn led<B, K, V, M>(k: Rk<B, K, M>, s: Seq<Pt<B, K, V>>, t: Seq<Pt<B, K, V>>) -> bool { hquiet(k, t) ==> hquiet(k, s) && hp(k, s) == hp(k, t) }
/// From heap s to heap t, one entry is given away, whose value becomes w.
pub open spec fn given<B, K, V, M>(k: Rk<B, K, M>, s: Seq<Pt<B, K, V>>, t: Seq<Pt<B, K, V>>, key: K, v: V, w: V) -> bool { hquiet(k, t) ==> hquiet(k, s) && hp(k, s) == hp(k, t).insert((key, (v, w))) }
/// a is b and the entries s, which become t
pub open spec fn spread<B, K, V, M>(k: Rk<B, K, M>, a: Seq<Pt<B, K, V>>, b: Seq<Pt<B, K, V>>, s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool {
    hquiet(k, a) ==> hquiet(k, b) && calm(k, s, t) && hp(k, a) == hp(k, b).add(kz(k, s, t))
}
/// a is b and the nodes v, which become w
pub open spec fn spreads<B, K, V, M>(k: Rk<B, K, M>, a: Seq<Pt<B, K, V>>, b: Seq<Pt<B, K, V>>, v: Seq<Node<B, K, V>>, w: Seq<Node<B, K, V>>, l: nat) -> bool {
    hquiet(k, a) ==> hquiet(k, b) && likes(v, w, l) && calm(k, flats(v, l), flats(w, l)) && hp(k, a) == hp(k, b).add(kz(k, flats(v, l), flats(w, l)))
}
/// The heap has the node, which becomes n1.
#[verifier::prophetic]
pub open spec fn began<'a, B, K, V, M>(k: Rk<B, K, M>, h: Seq<ItemMut<'a, B, K, V, M>>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat) -> bool {
    hquiet(k, pts(h)) ==> calms(k, n0, n1, l) && hp(k, pts(h)) == kz(k, flat(n0.children, l), flat(n1.children, l))
}
impl<'a, B, Key, Value, R: Ranking<B, Key>> SortedIterMut<'a, B, Key, Value, R> {
    pub open spec fn wf(&self) -> bool { mlaw::<R::Metric>() && hok(plain::<B, Key, R>(self.ranking), itms(self.entries@)) }
    pub open spec fn left(&self) -> Multiset<(Key, Value)> { hpend(plain::<B, Key, R>(self.ranking), itms(self.entries@)) }
}
impl<'a, B, Key, Value, R: Ranking<B, Key, Metric = Option<S>>, S: Ord> FilterSortedIterMut<'a, B, Key, Value, R, S> {
    pub open spec fn wf(&self) -> bool { mlaw::<S>() && hok(partial::<B, Key, R, S>(self.ranking), itms(self.entries@)) }
    pub open spec fn left(&self) -> Multiset<(Key, Value)> { hpend(partial::<B, Key, R, S>(self.ranking), itms(self.entries@)) }
}
pub proof fn lemma_itms<'a, B, K, V, M>(h: Seq<ItemMut<'a, B, K, V, M>>, g: Seq<ItemMut<'a, B, K, V, M>>)
    ensures g.len() == h.len() + 1 && g == h.push(g.last()) ==> itms(g) == itms(h).push(itm(g.last())) && pts(g) == pts(h).push(pt(g.last()))
{
    if g.len() == h.len() + 1 && g == h.push(g.last()) { assert(itms(g) =~= itms(h).push(itm(g.last()))); assert(pts(g) =~= pts(h).push(pt(g.last()))); }
}
pub proof fn lemma_hp_at<B, K, V, M>(k: Rk<B, K, M>, h: Seq<Pt<B, K, V>>, i: int)
    requires 0 <= i < h.len()
    ensures hp(k, h) =~= hp(k, h.remove(i)).add(pb(k, h[i]))
    decreases h.len()
{
    if i == h.len() - 1 { assert(h.remove(i) =~= h.drop_last()); } else {
        lemma_hp_at(k, h.drop_last(), i);
        assert(h.remove(i).drop_last() =~= h.drop_last().remove(i));
        assert(h.remove(i).last() == h.last());
    }
}
/// p is gone from h0
pub open spec fn pwent<B, K, V, M>(k: Rk<B, K, M>, h0: Seq<Pt<B, K, V>>, h1: Seq<Pt<B, K, V>>, p: Pt<B, K, V>) -> bool {
    (hquiet(k, h1) && quiet(k, p) ==> hquiet(k, h0)) && hp(k, h0) == hp(k, h1).add(pb(k, p))
}
pub proof fn lemma_may_mut<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, m0: Multiset<(K, V)>, h0: Seq<ItemMut<'a, B, K, V, M>>, h1: Seq<ItemMut<'a, B, K, V, M>>, y: ItemMut<'a, B, K, V, M>)
    requires mlaw::<M>(), hok(k, itms(h0)), exists|i: int| #[trigger] popped(h0, h1, i, y), m0 == hpend(k, itms(h0)), hmay(k, m0, itms(h0))
    ensures mays(k, m0, itms(h0), itms(h1)), lv(itm(y)) > 0 ==> may_rank_in(k, m0, nd(itm(y)), (lv(itm(y)) - 1) as nat), may_below(k, m0, itms(h0), itm(y))
{
    let i = choose|i: int| #[trigger] popped(h0, h1, i, y);
    lemma_first(h0, h1, i, y);
    assert(itms(h1) =~= itms(h0).remove(i));
    assert forall|j: int| 0 <= j < itms(h0).len() implies mle(mt(itm(y)), mt(#[trigger] itms(h0)[j])) by { assert(mle(tm(y), tm(h0[j]))); }
    lemma_may_out(k, m0, itms(h0), itms(h1), i, itm(y));
}
pub proof fn lemma_out_mut<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h0: Seq<ItemMut<'a, B, K, V, M>>, h1: Seq<ItemMut<'a, B, K, V, M>>, y: ItemMut<'a, B, K, V, M>)
    requires mlaw::<M>(), hok(k, itms(h0)), exists|i: int| #[trigger] popped(h0, h1, i, y)
    ensures
        went(k, itms(h0), itms(h1), itm(y)), pwent(k, pts(h0), pts(h1), pt(y)),
        spread(k, pts(h1), pts(h1), leaf(pt(y).n0.children)@.take(0), leaf(pt(y).n1.children)@.take(0)),
        lv(itm(y)) >= 2 ==> spreads(k, pts(h1), pts(h1), inner(pt(y).n0.children)@.take(0), inner(pt(y).n1.children)@.take(0), (lv(itm(y)) - 2) as nat),
{
    let i = choose|i: int| #[trigger] popped(h0, h1, i, y);
    lemma_first(h0, h1, i, y);
    assert(itms(h1) =~= itms(h0).remove(i));
    assert forall|j: int| 0 <= j < itms(h0).len() implies mle(mt(itm(y)), mt(#[trigger] itms(h0)[j])) by { assert(mle(tm(y), tm(h0[j]))); }
    assert(out(itms(h0), itms(h1), i, itm(y)));
    lemma_popped(k, itms(h0), itms(h1), itm(y));
    assert(pts(h1) =~= pts(h0).remove(i));
    lemma_hp_at(k, pts(h0), i);
    if hquiet(k, pts(h1)) && quiet(k, pt(y)) {
        assert forall|j: int| 0 <= j < pts(h0).len() implies quiet(k, #[trigger] pts(h0)[j]) by { if j < i { assert(pts(h1)[j] == pts(h0)[j]); } else if j > i { assert(pts(h1)[j - 1] == pts(h0)[j]); } }
    }
    let z = Seq::<(K, V)>::empty();
    lemma_kz_none(k, z, z);
    assert(hp(k, pts(h1)) =~= hp(k, pts(h1)).add(kz(k, z, z)));
    assert(leaf(pt(y).n0.children)@.take(0) =~= z && leaf(pt(y).n1.children)@.take(0) =~= z);
    let (v, w) = (inner(pt(y).n0.children)@.take(0), inner(pt(y).n1.children)@.take(0));
    assert(v =~= w);
    if lv(itm(y)) >= 2 { assert(flats(v, (lv(itm(y)) - 2) as nat) =~= z); }
}
pub proof fn lemma_kz_none<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires forall|i: int| 0 <= i < s.len() ==> (k.key)((#[trigger] s[i]).0) is None
    ensures kz(k, s, t) == Multiset::<(K, (V, V))>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < zip(s, t).len() implies (k.key)((#[trigger] zip(s, t)[i]).0) is None by { assert((k.key)(s[i].0) is None); }
    lemma_ks_none(k, zip(s, t));
    assert(kz(k, s, t) =~= Multiset::empty());
}
pub proof fn lemma_kz_add<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, t: Seq<(K, V)>, s1: Seq<(K, V)>, t1: Seq<(K, V)>)
    requires s.len() == t.len(), s1.len() == t1.len()
    ensures kz(k, s + s1, t + t1) == kz(k, s, t).add(kz(k, s1, t1))
{
    assert(zip(s + s1, t + t1) =~= zip(s, t) + zip(s1, t1));
    lemma_ks_add(k, zip(s, t), zip(s1, t1));
}
pub proof fn lemma_calm_add<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, t: Seq<(K, V)>, s1: Seq<(K, V)>, t1: Seq<(K, V)>)
    requires calm(k, s, t), calm(k, s1, t1)
    ensures calm(k, s + s1, t + t1)
{
}
pub proof fn lemma_hp_push<B, K, V, M>(k: Rk<B, K, M>, h: Seq<Pt<B, K, V>>, p: Pt<B, K, V>)
    ensures hp(k, h.push(p)) == hp(k, h).add(pb(k, p)), hquiet(k, h.push(p)) ==> hquiet(k, h) && quiet(k, p)
{
    assert(h.push(p).drop_last() =~= h);
    if hquiet(k, h.push(p)) {
        assert(h.push(p)[h.len() as int] == p);
        assert forall|i: int| 0 <= i < h.len() implies quiet(k, #[trigger] h[i]) by { assert(h.push(p)[i] == h[i]); }
    }
}
/// The i-th entry has been pushed, or stays as it is.
pub proof fn lemma_spread<B, K, V, M>(k: Rk<B, K, M>, a: Seq<Pt<B, K, V>>, c: Seq<Pt<B, K, V>>, b: Seq<Pt<B, K, V>>, s: Seq<(K, V)>, t: Seq<(K, V)>, i: int)
    requires
        0 <= i < s.len() == t.len(), spread(k, a, b, s.take(i), t.take(i)),
        (k.key)(s[i].0) is None ==> c == a && t[i] == s[i],
        (k.key)(s[i].0) is Some ==> c == a.push(c.last()) && c.last().lv == 0 && c.last().e0 == s[i] && c.last().e1 == t[i],
    ensures spread(k, c, b, s.take(i + 1), t.take(i + 1))
{
    let (s1, t1) = (seq![s[i]], seq![t[i]]);
    assert(s.take(i + 1) =~= s.take(i) + s1);
    assert(t.take(i + 1) =~= t.take(i) + t1);
    if hquiet(k, c) {
        lemma_kz_add(k, s.take(i), t.take(i), s1, t1);
        assert(zip(s1, t1) =~= seq![(s[i].0, (s[i].1, t[i].1))]);
        lemma_ks_one(k, (s[i].0, (s[i].1, t[i].1)));
        if (k.key)(s[i].0) is Some { lemma_hp_push(k, a, c.last()); }
        assert(hquiet(k, a));
        lemma_calm_add(k, s.take(i), t.take(i), s1, t1);
        assert(hp(k, c) =~= hp(k, b).add(kz(k, s.take(i + 1), t.take(i + 1))));
    }
}
/// The i-th child has been pushed, or stays as it is.
pub proof fn lemma_spreads<B, K, V, M: Ord>(k: Rk<B, K, M>, a: Seq<Pt<B, K, V>>, c: Seq<Pt<B, K, V>>, b: Seq<Pt<B, K, V>>, v: Seq<Node<B, K, V>>, w: Seq<Node<B, K, V>>, i: int, x: It<B, K, V, M>)
    requires
        iok(k, x), lv(x) >= 2, inner(nd(x).children)@ == v, 0 <= i < v.len() == w.len(),
        spreads(k, a, b, v.take(i), w.take(i), (lv(x) - 2) as nat),
        (k.bound)(v[i].bounds) is None ==> c == a && w[i] == v[i],
        (k.bound)(v[i].bounds) is Some ==> c == a.push(c.last()) && c.last().lv == lv(x) - 1 && c.last().n0 == v[i] && c.last().n1 == w[i],
    ensures spreads(k, c, b, v.take(i + 1), w.take(i + 1), (lv(x) - 2) as nat)
{
    let l = (lv(x) - 2) as nat;
    lemma_flats_at(v, i, l);
    lemma_flats_at(w, i, l);
    let (s1, t1) = (flat(v[i].children, l), flat(w[i].children, l));
    let cap = choose|cap: nat| #[trigger] fits(nd(x).children, (lv(x) - 1) as nat, cap);
    assert(fits(v[i].children, l, cap));
    lemma_like_refl(v[i], l, cap);
    assert(ranks(k, v[i], l));
    if hquiet(k, c) {
        if (k.bound)(v[i].bounds) is Some { lemma_hp_push(k, a, c.last()); } else { lemma_kz_none(k, s1, t1); assert(calm(k, s1, t1)); }
        assert(hquiet(k, a));
        assert(calm(k, s1, t1)) by { if (k.bound)(v[i].bounds) is Some { assert(quiet(k, c.last())); } }
        lemma_kz_add(k, flats(v.take(i), l), flats(w.take(i), l), s1, t1);
        lemma_calm_add(k, flats(v.take(i), l), flats(w.take(i), l), s1, t1);
        assert(hp(k, c) =~= hp(k, b).add(kz(k, flats(v.take(i + 1), l), flats(w.take(i + 1), l))));
        assert forall|j: int| 0 <= j < i + 1 implies like(#[trigger] v.take(i + 1)[j], w.take(i + 1)[j], l) by { if j < i { assert(like(v.take(i)[j], w.take(i)[j], l)); } }
    }
}
/// n1 is n0 with other children of the same kind
pub open spec fn turned<B, K, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat) -> bool {
    n0.bounds == n1.bounds && kind(n1.children, l) && clen(n0.children, l) == clen(n1.children, l) && (l == 0 ==> leaf(n0.children).cap() == leaf(n1.children).cap()) && (l > 0 ==> inner(n0.children).cap() == inner(n1.children).cap())
}
/// A node's children took its place.
pub proof fn lemma_opened_mut<B, K, V, M: Ord>(k: Rk<B, K, M>, g: Seq<Pt<B, K, V>>, h0: Seq<Pt<B, K, V>>, h1: Seq<Pt<B, K, V>>, h2: Seq<Pt<B, K, V>>, p: Pt<B, K, V>, x: It<B, K, V, M>)
    requires
        led(k, g, h0), pwent(k, h0, h1, p), p.lv > 0, turned(p.n0, p.n1, (p.lv - 1) as nat),
        p.lv == 1 ==> spread(k, h2, h1, leaf(p.n0.children)@.take(leaf(p.n0.children)@.len() as int), leaf(p.n1.children)@.take(leaf(p.n0.children)@.len() as int)),
        p.lv > 1 ==> spreads(k, h2, h1, inner(p.n0.children)@.take(inner(p.n0.children)@.len() as int), inner(p.n1.children)@.take(inner(p.n0.children)@.len() as int), (p.lv - 2) as nat),
    ensures led(k, g, h2)
{
    if hquiet(k, h2) {
        let l = (p.lv - 1) as nat;
        if p.lv == 1 {
            let (s, t) = (leaf(p.n0.children)@, leaf(p.n1.children)@);
            assert(s.take(s.len() as int) =~= s && t.take(s.len() as int) =~= t);
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == t[i].0 by {}
            assert(like(p.n0, p.n1, l));
        } else {
            let (s, t) = (inner(p.n0.children)@, inner(p.n1.children)@);
            assert(s.take(s.len() as int) =~= s && t.take(s.len() as int) =~= t);
            assert(like(p.n0, p.n1, l));
        }
        assert(quiet(k, p));
    }
}
pub proof fn lemma_given<B, K, V, M>(k: Rk<B, K, M>, g: Seq<Pt<B, K, V>>, h0: Seq<Pt<B, K, V>>, h1: Seq<Pt<B, K, V>>, p: Pt<B, K, V>, key: K, v: V, w: V)
    requires led(k, g, h0), pwent(k, h0, h1, p), p.lv == 0, p.e0 == (key, v), p.e1 == (key, w)
    ensures given(k, g, h1, key, v, w)
{
    if hquiet(k, h1) { assert(quiet(k, p)); assert(hp(k, h0) =~= hp(k, h1).insert((key, (v, w)))); }
}
pub proof fn lemma_start_mut<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<ItemMut<'a, B, K, V, M>>, x: Option<ItemMut<'a, B, K, V, M>>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat)
    requires
        fitted(n0.children, l), clen(n0.children, l) > 0 ==> tops(k, n0, l),
        x is None ==> h.len() == 0 && (clen(n0.children, l) == 0 || (k.bound)(n0.bounds) is None) && n1 == n0,
        x is Some ==> h =~= seq![x->Some_0] && clen(n0.children, l) > 0 && ({ let y = itm(x->Some_0); (k.bound)(n0.bounds) == Some(mt(y)) && lv(y) == l + 1 && y.is_nd && nd(y) == n0 }) && pt(x->Some_0).n1 == n1,
    ensures hok(k, itms(h)), hpend(k, itms(h)) == ks(k, flat(n0.children, l)).to_multiset(), began(k, h, n0, n1, l)
{
    let s = flat(n0.children, l);
    let cap = choose|cap: nat| #[trigger] fits(n0.children, l, cap);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if x is None {
        lemma_ks_none(k, s);
        assert(hpend(k, itms(h)) =~= ks(k, s).to_multiset());
        lemma_kz_none(k, s, s);
        lemma_like_refl(n0, l, cap);
    } else {
        let y = itm(x->Some_0);
        assert(itms(h) =~= seq![y]);
        assert(itms(h).drop_last() =~= Seq::empty());
        assert(hpend(k, itms(h).drop_last()) =~= Multiset::empty());
        assert(hpend(k, itms(h)) =~= ibag(k, y));
        assert(iok(k, y));
        let p = pt(x->Some_0);
        assert(pts(h) =~= seq![p]);
        assert(pts(h).drop_last() =~= Seq::empty());
        assert(hp(k, pts(h).drop_last()) =~= Multiset::empty());
        assert(hp(k, pts(h)) =~= pb(k, p));
        if hquiet(k, pts(h)) { assert(quiet(k, pts(h)[0])); }
    }
}
/// A heap that is dropped leaves what its references point to as it is.
pub broadcast axiom fn heap_resolved<T>(h: BinaryHeap<T>, i: int)
    requires #[trigger] has_resolved(h), 0 <= i < h@.len()
    ensures has_resolved(#[trigger] h@[i]);
pub broadcast axiom fn entry_resolved<'a, B, K, V>(x: SortedIterItemMut<'a, B, K, V>)
    requires has_resolved(x), is_variant(x, "entry")
    ensures has_resolved(#[trigger] get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut (K, V)>(x, "entry"));
pub broadcast axiom fn node_resolved<'a, B, K, V>(x: SortedIterItemMut<'a, B, K, V>)
    requires has_resolved(x), is_variant(x, "node")
    ensures has_resolved(#[trigger] get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut Node<B, K, V>>(x, "node"));
/// nothing has changed
pub open spec fn unchanged<K, V>(m: Multiset<(K, (V, V))>) -> bool { forall|e: (K, (V, V))| #[trigger] m.count(e) > 0 ==> e.1.0 == e.1.1 }
pub proof fn lemma_kz_same<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>)
    ensures unchanged(kz(k, s, s))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let z = zip(s, s);
    assert forall|e: (K, (V, V))| #[trigger] kz(k, s, s).count(e) > 0 implies e.1.0 == e.1.1 by {
        assert(ks(k, z).contains(e));
        let i = choose|i: int| 0 <= i < ks(k, z).len() && ks(k, z)[i] == e;
        lemma_ks_in(k, z, i);
    }
}
pub proof fn lemma_ks_in<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, i: int)
    requires 0 <= i < ks(k, s).len()
    ensures s.contains(ks(k, s)[i]), (k.key)(ks(k, s)[i].0) is Some
{
    let f = |e: (K, V)| (k.key)(e.0) is Some;
    s.lemma_filter_contains_rev(f, ks(k, s)[i]);
    s.filter_lemma(f);
}
pub proof fn lemma_same<B, K, V, M: Ord>(k: Rk<B, K, M>, h: Seq<Pt<B, K, V>>, g: Seq<It<B, K, V, M>>)
    requires
        h.len() == g.len(), hok(k, g),
        forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).lv == g[i].lv && (h[i].lv == 0 ==> h[i].e0 == h[i].e1) && (h[i].lv > 0 ==> h[i].n0 == h[i].n1 && h[i].n0 == g[i].nd),
    ensures hquiet(k, h), unchanged(hp(k, h))
    decreases h.len()
{
    if h.len() > 0 {
        let (p, x) = (h.last(), g.last());
        assert forall|i: int| 0 <= i < h.drop_last().len() implies (#[trigger] h.drop_last()[i]).lv == g.drop_last()[i].lv && (h.drop_last()[i].lv == 0 ==> h.drop_last()[i].e0 == h.drop_last()[i].e1) && (h.drop_last()[i].lv > 0 ==> h.drop_last()[i].n0 == h.drop_last()[i].n1 && h.drop_last()[i].n0 == g.drop_last()[i].nd) by { assert(h[i].lv == g[i].lv); }
        assert(hok(k, g.drop_last())) by { assert forall|i: int| 0 <= i < g.drop_last().len() implies iok(k, #[trigger] g.drop_last()[i]) by { assert(iok(k, g[i])); } }
        lemma_same(k, h.drop_last(), g.drop_last());
        assert(iok(k, g[g.len() - 1]));
        assert(h[h.len() - 1].lv == x.lv);
        if p.lv > 0 {
            let l = (p.lv - 1) as nat;
            let cap = choose|cap: nat| #[trigger] fits(p.n0.children, l, cap);
            lemma_like_refl(p.n0, l, cap);
            lemma_kz_same(k, flat(p.n0.children, l));
        }
        assert(unchanged(pb(k, p)));
        assert forall|i: int| 0 <= i < h.len() implies quiet(k, #[trigger] h[i]) by { if i < h.len() - 1 { assert(quiet(k, h.drop_last()[i])); } }
    }
}
/// The items of a dropped heap stay as they are.
pub proof fn lemma_dropped<'a, B, K, V, M: Ord>(k: Rk<B, K, M>, h: IterHeap<M, SortedIterItemMut<'a, B, K, V>>)
    requires has_resolved(h), hok(k, itms(h@))
    ensures hquiet(k, pts(h@)), unchanged(hp(k, pts(h@)))
{
    broadcast use {heap_resolved, entry_resolved, node_resolved};
    let (p, g) = (pts(h@), itms(h@));
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).lv == g[i].lv && (p[i].lv == 0 ==> p[i].e0 == p[i].e1) && (p[i].lv > 0 ==> p[i].n0 == p[i].n1 && p[i].n0 == g[i].nd) by {
        assert(iok(k, g[i]));
        assert(has_resolved(h@[i]));
        assert(has_resolved(h@[i].value));
        if p[i].lv == 0 { assert(has_resolved(get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut (K, V)>(h@[i].value, "entry"))); } else { assert(has_resolved(get_union_field::<SortedIterItemMut<'a, B, K, V>, &'a mut Node<B, K, V>>(h@[i].value, "node"))); }
    }
    lemma_same(k, p, g);
}

//@ module rtree_sortedmut from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, ranking::Ranking, node::*, rtree::*, sorted::*, rtree_sorted::*, sortedmut::*, sortedmut as iter};
use vstd::multiset::Multiset;
//@ only RTree::iter_asc_by_mut; RTree::filter_iter_asc_by_mut; RTree::min_by_mut; RTree::filter_min_by_mut
//@ rewrite iter::SortedIterMut<B, ==> iter::SortedIterMut<'_, B,
//@ rewrite iter::FilterSortedIterMut<B, ==> iter::FilterSortedIterMut<'_, B,
//@ fn RTree::iter_asc_by_mut
    requires old(self).rankable(plain::<B, Key, R>(ranking))
    ensures res.wf(), res.ranking == ranking, res.left() =~= old(self).entries().to_multiset(), ranked_mut(plain::<B, Key, R>(ranking), *old(self), *final(self), pts(res.entries@)),
        forall|m: Multiset<(Key, Value)>| may_rank(plain::<B, Key, R>(ranking), m, old(self).root.node, old(self).root.level as nat) ==> #[trigger] hmay(plain::<B, Key, R>(ranking), m, itms(res.entries@)),
//@ fn RTree::filter_iter_asc_by_mut
    requires old(self).rankable(partial::<B, Key, R, S>(ranking))
    ensures res.wf(), res.ranking == ranking, res.left() =~= ks(partial::<B, Key, R, S>(ranking), old(self).entries()).to_multiset(), ranked_mut(partial::<B, Key, R, S>(ranking), *old(self), *final(self), pts(res.entries@)),
        forall|m: Multiset<(Key, Value)>| may_rank(partial::<B, Key, R, S>(ranking), m, old(self).root.node, old(self).root.level as nat) ==> #[trigger] hmay(partial::<B, Key, R, S>(ranking), m, itms(res.entries@)),
//@ fn RTree::min_by_mut
    requires old(self).rankable(plain::<B, Key, R>(ranking)), may_rank(plain::<B, Key, R>(ranking), old(self).entries().to_multiset(), old(self).root.node, old(self).root.level as nat)
    ensures
        res is None ==> old(self).entries().len() == 0,
        res is Some ==> least(plain::<B, Key, R>(ranking), old(self).entries().to_multiset(), (*res->Some_0.0, *res->Some_0.1)) && old(self).entries().to_multiset().count((*res->Some_0.0, *res->Some_0.1)) > 0
            && only(plain::<B, Key, R>(ranking), *old(self), *final(self), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ rewrite self.iter_asc_by_mut(ranking).next() ==> { let mut it = self.iter_asc_by_mut(ranking); let ghost p0 = it.entries@; let first = it.next_item(); proof { lemma_none(t0.entries()); lemma_dropped(plain::<B, Key, R>(ranking), it.entries); lemma_only(plain::<B, Key, R>(ranking), first, pts(p0), pts(it.entries@)); } first }
//@ start
        let ghost t0 = *self;
//@ fn RTree::filter_min_by_mut
    requires old(self).rankable(partial::<B, Key, R, S>(ranking)), may_rank(partial::<B, Key, R, S>(ranking), ks(partial::<B, Key, R, S>(ranking), old(self).entries()).to_multiset(), old(self).root.node, old(self).root.level as nat)
    ensures
        res is None ==> ks(partial::<B, Key, R, S>(ranking), old(self).entries()).len() == 0,
        res is Some ==> least(partial::<B, Key, R, S>(ranking), ks(partial::<B, Key, R, S>(ranking), old(self).entries()).to_multiset(), (*res->Some_0.0, *res->Some_0.1))
            && ks(partial::<B, Key, R, S>(ranking), old(self).entries()).to_multiset().count((*res->Some_0.0, *res->Some_0.1)) > 0
            && only(partial::<B, Key, R, S>(ranking), *old(self), *final(self), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ rewrite self.filter_iter_asc_by_mut(ranking).next() ==> { let mut it = self.filter_iter_asc_by_mut(ranking); let ghost p0 = it.entries@; let first = it.next_item(); proof { lemma_none(ks(partial::<B, Key, R, S>(ranking), t0.entries())); lemma_dropped(partial::<B, Key, R, S>(ranking), it.entries); lemma_only(partial::<B, Key, R, S>(ranking), first, pts(p0), pts(it.entries@)); } first }
//@ start
        let ghost t0 = *self;
//@ text
/// t becomes u, as what is in the heap becomes
pub open spec fn ranked_mut<B, K, V, M>(k: Rk<B, K, M>, t: RTree<B, K, V>, u: RTree<B, K, V>, h: Seq<Pt<B, K, V>>) -> bool {
    &&& u.root.level == t.root.level && u.root.alloc == t.root.alloc
    &&& hquiet(k, h) ==> calms(k, t.root.node, u.root.node, t.root.level as nat) && hp(k, h) == kz(k, t.entries(), u.entries())
}
/// u is t but for one entry, whose value was v and is w
pub open spec fn only<B, K, V, M>(k: Rk<B, K, M>, t: RTree<B, K, V>, u: RTree<B, K, V>, key: K, v: V, w: V) -> bool {
    &&& u.root.level == t.root.level && u.root.alloc == t.root.alloc && calms(k, t.root.node, u.root.node, t.root.level as nat)
    &&& kz(k, t.entries(), u.entries()).count((key, (v, w))) > 0 && unchanged(kz(k, t.entries(), u.entries()).remove((key, (v, w))))
}
#[verifier::prophetic]
pub open spec fn gave<'a, B, K, V, M>(k: Rk<B, K, M>, r: Option<(&'a K, &'a mut V)>, s: Seq<Pt<B, K, V>>, t: Seq<Pt<B, K, V>>) -> bool {
    r is Some ==> given(k, s, t, *r->Some_0.0, *r->Some_0.1, *final(r->Some_0.1))
}
pub proof fn lemma_only<'a, B, K, V, M>(k: Rk<B, K, M>, r: Option<(&'a K, &'a mut V)>, s: Seq<Pt<B, K, V>>, t: Seq<Pt<B, K, V>>)
    requires gave(k, r, s, t), hquiet(k, t), unchanged(hp(k, t))
    ensures
        r is Some ==> hquiet(k, s) && ({ let e = (*r->Some_0.0, (*r->Some_0.1, *final(r->Some_0.1))); hp(k, s).count(e) > 0 && unchanged(hp(k, s).remove(e)) }),
{
    if r is Some {
        let e = (*r->Some_0.0, (*r->Some_0.1, *final(r->Some_0.1)));
        assert(hp(k, s).remove(e) =~= hp(k, t));
    }
}
/// What a caller gets who writes w through every item of a ranked mutable iteration: exactly the entries that have a rank have the value w,
/// every other entry is as it was, and the tree is sound.
fn theorem_write_ranked<B: Bounds + Clone, K: Bounded<B>, V: Copy, R: Ranking<B, K, Metric = Option<S>>, S: Ord>(t: &mut RTree<B, K, V>, f: R, w: V)
    requires
        old(t).sound(), law::<B, K>(), mlaw::<S>(), ranking_law::<B, K, V, S>(partial::<B, K, R, S>(f), old(t).entries()), old(t).root.level < usize::MAX,
        forall|m: Multiset<(K, V)>| among(m, old(t).entries().to_multiset()) ==> #[trigger] may_rank(partial::<B, K, R, S>(f), m, old(t).root.node, old(t).root.level as nat),
    ensures
        final(t).sound(), final(t).root.alloc == old(t).root.alloc, final(t).entries().len() == old(t).entries().len(),
        forall|i: int| 0 <= i < old(t).entries().len() ==> #[trigger] final(t).entries()[i] == if (partial::<B, K, R, S>(f).key)(old(t).entries()[i].0) is Some { (old(t).entries()[i].0, w) } else { old(t).entries()[i] },
{
    let ghost k = partial::<B, K, R, S>(f);
    let ghost t0 = *t;
    proof { theorem_ranked::<B, K, V, S>(*t, k); }
    let mut it = t.filter_iter_asc_by_mut(f);
    let ghost s0 = it.entries@;
    let ghost mut d = Multiset::<(K, (V, V))>::empty();
    proof {
        assert(hp(k, pts(s0)) =~= hp(k, pts(s0)).add(d));
        lemma_ks_sub(k, t0.entries());
        assert forall|m: Multiset<(K, V)>| #[trigger] among(m, it.left()) implies hmay(k, m, itms(it.entries@)) by { assert(among(m, t0.entries().to_multiset())); assert(may_rank(k, m, t0.root.node, t0.root.level as nat)); }
    }
    loop
        invariant_except_break
            it.wf(), k == partial::<B, K, R, S>(it.ranking), all_w(d, w), may_go(k, it.left(), itms(it.entries@)), hquiet(k, pts(it.entries@)) ==> hquiet(k, pts(s0)) && hp(k, pts(s0)) == hp(k, pts(it.entries@)).add(d),
        ensures
            hquiet(k, pts(s0)), all_w(hp(k, pts(s0)), w),
        decreases it.left().len()
    {
        let ghost s1 = it.entries@;
        let ghost m1 = it.left();
        proof { assert(among(m1, m1)); }
        match it.next_item() {
            None => {
                proof { assert(hp(k, pts(s0)) =~= d); }
                break;
            }
            Some((key, v)) => {
                let ghost v0 = *v;
                *v = w;
                proof {
                    let e = (*key, (v0, w));
                    if hquiet(k, pts(it.entries@)) { assert(hp(k, pts(it.entries@)).insert(e).add(d) =~= hp(k, pts(it.entries@)).add(d.insert(e))); }
                    d = d.insert(e);
                    assert(m1 =~= it.left().insert((*key, v0)));
                    assert forall|m: Multiset<(K, V)>| #[trigger] among(m, it.left()) implies hmay(k, m, itms(it.entries@)) by { assert(among(m, m1)); assert(hmay(k, m, itms(s1))); }
                }
            }
        }
    }
    proof {
        lemma_like_good::<B, K, V>(t0.root.node, t.root.node, t0.root.level as nat, t0.root.alloc);
        let (a, b) = (t0.entries(), t.entries());
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == if (k.key)(a[i].0) is Some { (a[i].0, w) } else { a[i] } by {
            if (k.key)(a[i].0) is Some { lemma_kz_has(k, a, b, i); }
        }
    }
}
/// whatever of the entries to come is still to come, it may be ranked
pub open spec fn may_go<B, K, V, M: Ord>(k: Rk<B, K, M>, w: Multiset<(K, V)>, h: Seq<It<B, K, V, M>>) -> bool { forall|m: Multiset<(K, V)>| #[trigger] among(m, w) ==> hmay(k, m, h) }
pub proof fn lemma_ks_sub<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>)
    ensures among(ks(k, s).to_multiset(), s.to_multiset())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|e: (K, V)| #[trigger] ks(k, s).to_multiset().count(e) > 0 implies s.to_multiset().count(e) > 0 by {
        super::sorted::lemma_ks_in(k, s, e);
    }
}
pub open spec fn all_w<K, V>(m: Multiset<(K, (V, V))>, w: V) -> bool { forall|e: (K, (V, V))| #[trigger] m.count(e) > 0 ==> e.1.1 == w }
pub proof fn lemma_kz_has<B, K, V, M>(k: Rk<B, K, M>, s: Seq<(K, V)>, t: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len() == t.len(), (k.key)(s[i].0) is Some
    ensures kz(k, s, t).count((s[i].0, (s[i].1, t[i].1))) > 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let z = zip(s, t);
    let f = |e: (K, (V, V))| (k.key)(e.0) is Some;
    z.lemma_filter_contains(f, i);
    assert(ks(k, z).contains(z[i]));
}
