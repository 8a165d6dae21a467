//@ include split.vs
//@ module util from src/util.rs
//@ uses
use super::*;
use super::std_model::*;
use vstd::std_specs::iter::IteratorSpec;
//@ rewrite unsafe { slice::from_raw_parts_mut(NonNull::<T>::dangling().as_ptr(), $n) } ==> dangling_slice($n)
//@ fn empty_slice
    ensures res@.len() == 0
//@ endfn
//@ text
/// slice::from_raw_parts_mut of a dangling pointer: sound for no elements only
#[verifier::external_body]
fn dangling_slice<'a, T>(n: usize) -> (r: &'a mut [T])
    requires n == 0
    ensures r@.len() == 0
{ unimplemented!() }
//@ fn get_only
    requires iter.obeys_prophetic_iter_laws()
    ensures
        res is None ==> iter.will_return_none() && iter.remaining().len() == 0,
        res is Only ==> iter.will_return_none() && iter.remaining().len() == 1 && res->Only_0 == iter.remaining()[0],
        res is Multiple ==> iter.remaining().len() >= 2 && (drops_rest::<I>() ==> forall|i: int| 0 <= i < iter.remaining().len() ==> has_resolved(#[trigger] iter.remaining()[i])),
//@ rewrite iter.next().is_some() ==> match iter.next() { Some(x) => { proof { assert(has_resolved(s0[1])); } true }, None => false }
//@ start
    broadcast use rest_resolved;
    let ghost s0 = iter.remaining();
//@ before GetOnlyResult::Multiple
            proof {
                assert(has_resolved(iter)); assert(has_resolved(s0[0]));
                if drops_rest::<I>() { assert forall|i: int| 0 <= i < s0.len() implies has_resolved(#[trigger] s0[i]) by { if i >= 2 { assert(s0[i] == iter.remaining()[i - 2]); } } }
            }

//@ module node from src/node.rs
//@ uses
use super::*;
use super::std_model::*;
use super::mem_model::*;
use super::laws::*;
use super::{select::Selector, split::{Splitter, lemma_swap_remove}, bounds::{Bounds, Bounded}, contains::Contains, fc_vec::{self, FCVec, FCVecContainer, FCVecRefMut}, util::*, ax::*};
use core::mem::{self, ManuallyDrop};
use core::slice;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::multiset::Multiset;
//@ drop NodeContainer<B,Key,Value> as Debug;InnerNodeChildrenIntoIter<B,Key,Value> as Iterator::size_hint
//@ drop * as Debug; *::_debug_assert*; InnerNodeChildrenRef<'a,B,Key,Value> as From*
//@ rewrite &mut self.node.children.inner ==> md_mut(&mut self.node.children.inner)
//@ rewrite &mut self.node.children.leaf ==> md_mut(&mut self.node.children.leaf)
//@ rewrite &mut self.children.inner ==> md_mut(&mut self.children.inner)
//@ rewrite &mut self.children.leaf ==> md_mut(&mut self.children.leaf)
//@ rewrite NodeChildrenRef::Leaf(unsafe { &self.node.children.leaf }) ==> NodeChildrenRef::Leaf(unsafe { self.node.children.leaf.deref() })
//@ rewrite unsafe { ptr::read(&self.node) } ==> self.node
//@ rewrite unsafe { ptr::read(&self.children) } ==> self.children
//@ rewrite mem::forget(self); ==>
//@ rewrite B: Contains<B>, Key: Borrow<Q>, Q: Eq + Bounded<B> + ?Sized, ==> B: Bounds + Clone, Key: Borrow<Q> + Bounded<B>, Q: Eq + Bounded<B> + ?Sized,
//@ rewrite (B, NodeContainer<B, Key, Value>) where B: Clone, ==> (B, NodeContainer<B, Key, Value>) where B: Bounds + Clone, Key: Bounded<B>,
//@ rewrite &mut self.children[index] ==> self.children.index_mut(index)
//@ rewrite (*self.node.children.inner).len() ==> self.node.children.inner.len()
//@ rewrite (*self.node.children.leaf).len() ==> self.node.children.leaf.len()
//@ rewrite type IntoIter = InnerNodeChildrenIter<'a, B, Key, Value>; fn into_iter(self) -> Self::IntoIter ==> fn into_iter(self) -> InnerNodeChildrenIter<'a, B, Key, Value>
//@ rewrite type IntoIter = InnerNodeChildrenIterMut<'a, B, Key, Value>; fn into_iter(self) -> Self::IntoIter ==> fn into_iter(self) -> InnerNodeChildrenIterMut<'a, B, Key, Value>
//@ rewrite panic!($m) ==> no_panic()
//@ rewrite type Item = NodeContainer<B, Key, Value>; fn next(&mut self) -> Option<Self::Item> ==> fn next(&mut self) -> Option<NodeContainer<B, Key, Value>>
//@ rewrite Bounded<B> for Node<B, Key, Value> where B: Clone, ==> Bounded<B> for Node<B, Key, Value> where B: Bounds + Clone,
//@ rewrite Bounded<B> for NodeRef<'a, B, Key, Value> where B: Clone, ==> Bounded<B> for NodeRef<'a, B, Key, Value> where B: Bounds + Clone,
//@ rewrite Bounded<B> for NodeRefMut<'a, B, Key, Value> where B: Clone, ==> Bounded<B> for NodeRefMut<'a, B, Key, Value> where B: Bounds + Clone,
//@ rewrite Bounded<B> for NodeEntry<B, Key, Value> where B: Clone, ==> Bounded<B> for NodeEntry<B, Key, Value> where B: Bounds + Clone,
//@ rewrite fn branch(&mut self, sibling: NodeContainer<B, Key, Value>) where B: Bounds, ==> fn branch(&mut self, sibling: NodeContainer<B, Key, Value>) where B: Bounds + Clone, Key: Bounded<B>,
//@ rewrite type IntoIter = InnerNodeChildrenIntoIter<B, Key, Value>; fn into_iter(self) -> Self::IntoIter ==> fn into_iter(self) -> InnerNodeChildrenIntoIter<B, Key, Value>
//@ rewrite B::union_all(children.iter().map($f)) ==> union_all_map(children.iter(), $f)
//@ rewrite unreachable!() ==> no_panic()
//@ rewrite on_underfull: &mut impl FnMut(NodeChildrenContainer<B, Key, Value>) ==> on_underfull: &mut Orphans<B, Key, Value>
//@ item NodeChildren
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item Node
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeContainer
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeEntry
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeRefMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeRef
attr #[verifier::reject_recursive_types(S)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenRef
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenIter
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeChildrenRef
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenRefMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenIterMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeChildrenRefMut
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenContainer
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenIntoIter
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item NodeChildrenContainer
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ item InnerNodeChildrenContainer<B,Key,Value> as IntoIterator
header <B, Key, Value> InnerNodeChildrenContainer<B, Key, Value>
//@ item InnerNodeChildrenContainer<B,Key,Value> as Drop
header <B, Key, Value> InnerNodeChildrenContainer<B, Key, Value>
//@ item InnerNodeChildrenIntoIter<B,Key,Value> as Iterator
header <B, Key, Value> InnerNodeChildrenIntoIter<B, Key, Value>
//@ item InnerNodeChildrenIntoIter<B,Key,Value> as Drop
header <B, Key, Value> InnerNodeChildrenIntoIter<B, Key, Value>
//@ item NodeContainer<B,Key,Value> as Clone
header <B: Clone, Key: Clone, Value: Clone> NodeContainer<B, Key, Value>
//@ item NodeContainer<B,Key,Value> as Drop
header <B, Key, Value> NodeContainer<B, Key, Value>
//@ item InnerNodeChildrenRef<'a,B,Key,Value> as IntoIterator
header <'a, B, Key, Value> InnerNodeChildrenRef<'a, B, Key, Value>
//@ item InnerNodeChildrenRefMut<'a,B,Key,Value> as IntoIterator
header <'a, B, Key, Value> InnerNodeChildrenRefMut<'a, B, Key, Value>
//@ text
pub type Entries<K, V> = Multiset<(K, V)>;

pub open spec fn is_inner<B, K, V>(c: NodeChildren<B, K, V>) -> bool { is_variant(c, "inner") }
pub open spec fn is_leaf<B, K, V>(c: NodeChildren<B, K, V>) -> bool { is_variant(c, "leaf") }
pub open spec fn inner<B, K, V>(c: NodeChildren<B, K, V>) -> FCVec<Node<B, K, V>> {
    get_union_field::<NodeChildren<B, K, V>, ManuallyDrop<FCVec<Node<B, K, V>>>>(c, "inner")@
}
pub open spec fn leaf<B, K, V>(c: NodeChildren<B, K, V>) -> FCVec<(K, V)> {
    get_union_field::<NodeChildren<B, K, V>, ManuallyDrop<FCVec<(K, V)>>>(c, "leaf")@
}
/// number of children
pub open spec fn clen<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> nat { if l == 0 { leaf(c)@.len() } else { inner(c)@.len() } }

/// The union variant is the one the level says, the vector is well-formed.
pub open spec fn kind<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> bool {
    if l == 0 { is_leaf(c) && leaf(c).wf() } else { is_inner(c) && inner(c).wf() }
}
/// The same all the way down, with the capacity the trees were made with: every access the code makes is valid.
pub open spec fn fits<B, K, V>(c: NodeChildren<B, K, V>, l: nat, cap: nat) -> bool
    decreases l,
{
    &&& kind(c, l)
    &&& l == 0 ==> leaf(c).cap() == cap
    &&& l > 0 ==> inner(c).cap() == cap && forall|i: int| 0 <= i < inner(c)@.len() ==> fits((#[trigger] inner(c)@[i]).children, (l - 1) as nat, cap)
}

/// The entries below, in the order iteration yields them.
pub open spec fn flat<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> Seq<(K, V)>
    decreases l, 0nat,
{
    if l == 0 { leaf(c)@ } else { flats(inner(c)@, (l - 1) as nat) }
}
/// ... of a sequence of nodes at level l
pub open spec fn flats<B, K, V>(s: Seq<Node<B, K, V>>, l: nat) -> Seq<(K, V)>
    decreases l, 1 + s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flats(s.drop_last(), l) + flat(s.last().children, l) }
}
pub open spec fn bag<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> Entries<K, V> { flat(c, l).to_multiset() }
pub open spec fn bags<B, K, V>(s: Seq<Node<B, K, V>>, l: nat) -> Entries<K, V> { flats(s, l).to_multiset() }

/// the bounds that contain all keys
pub open spec fn kub<B: Bounds, K: Bounded<B>, V>(m: Entries<K, V>) -> ISet<B> {
    ISet::new(|x: B| forall|e: (K, V)| #[trigger] m.count(e) > 0 ==> ub::<B, K>(&e.0).contains(x))
}

pub open spec fn cfg(a: Alloc) -> bool { a.min_children >= 1 && a.children.cap >= 2 * a.min_children }

/// What the trees rely on from the bounds and the keys.
pub open spec fn law<B: Bounds + Clone, K: Bounded<B>>() -> bool { bounds_law::<B>() && key_law::<B, K>() }

/// A well-formed node at level l: capacities, fill and bounds are right all the way down.
pub open spec fn good<B: Bounds, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc) -> bool
    decreases l, 1nat,
{
    B::up(n.bounds) == kub::<B, K, V>(bag(n.children, l)) && cgood::<B, K, V>(n.children, l, a)
}
pub open spec fn cgood<B: Bounds, K: Bounded<B>, V>(c: NodeChildren<B, K, V>, l: nat, a: Alloc) -> bool
    decreases l, 0nat,
{
    &&& kind(c, l)
    &&& l == 0 ==> leaf(c).cap() == a.children.cap && forall|i: int| 0 <= i < leaf(c)@.len() ==> (#[trigger] leaf(c)@[i]).0.bounds_req()
    &&& l > 0 ==> inner(c).cap() == a.children.cap && forall|i: int| 0 <= i < inner(c)@.len() ==> child_ok::<B, K, V>(#[trigger] inner(c)@[i], (l - 1) as nat, a)
}
/// ... and it has enough children to be a child
pub open spec fn child_ok<B: Bounds, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc) -> bool
    decreases l, 2nat,
{
    good::<B, K, V>(n, l, a) && clen(n.children, l) >= a.min_children
}

// ---- sequences of nodes

pub proof fn lemma_flats_push<B, K, V>(s: Seq<Node<B, K, V>>, n: Node<B, K, V>, l: nat)
    ensures flats(s.push(n), l) == flats(s, l) + flat(n.children, l), bags(s.push(n), l) == bags(s, l).add(bag(n.children, l))
{
    assert(s.push(n).drop_last() =~= s);
    vstd::seq_lib::lemma_multiset_commutative(flats(s, l), flat(n.children, l));
}
pub proof fn lemma_flats_add<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat)
    ensures flats(s + t, l) == flats(s, l) + flats(t, l)
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(flats(s, l) + flats(t, l) =~= flats(s, l));
    } else {
        lemma_flats_add(s, t.drop_last(), l);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert(flats(s, l) + (flats(t.drop_last(), l) + flat(t.last().children, l)) =~= flats(s, l) + flats(t.drop_last(), l) + flat(t.last().children, l));
    }
}
/// around position i
pub proof fn lemma_flats_at<B, K, V>(s: Seq<Node<B, K, V>>, i: int, l: nat)
    requires 0 <= i < s.len()
    ensures
        flats(s, l) == flats(s.take(i), l) + flat(s[i].children, l) + flats(s.skip(i + 1), l),
        flats(s.take(i + 1), l) == flats(s.take(i), l) + flat(s[i].children, l),
        bags(s, l) == bags(s.take(i), l).add(bag(s[i].children, l)).add(bags(s.skip(i + 1), l)),
{
    lemma_flats_push(s.take(i), s[i], l);
    assert(s.take(i).push(s[i]) =~= s.take(i + 1));
    lemma_flats_add(s.take(i + 1), s.skip(i + 1), l);
    assert(s.take(i + 1) + s.skip(i + 1) =~= s);
    vstd::seq_lib::lemma_multiset_commutative(flats(s.take(i), l) + flat(s[i].children, l), flats(s.skip(i + 1), l));
    vstd::seq_lib::lemma_multiset_commutative(flats(s.take(i), l), flat(s[i].children, l));
}
/// s and t differ at position i only
pub proof fn lemma_flats_update<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, i: int, l: nat)
    requires 0 <= i < s.len(), t.len() == s.len(), forall|j: int| 0 <= j < s.len() && j != i ==> s[j] == t[j]
    ensures
        flats(s, l) == flats(s.take(i), l) + flat(s[i].children, l) + flats(s.skip(i + 1), l),
        flats(t, l) == flats(s.take(i), l) + flat(t[i].children, l) + flats(s.skip(i + 1), l),
        bags(s, l) == bags(s.take(i), l).add(bag(s[i].children, l)).add(bags(s.skip(i + 1), l)),
        bags(t, l) == bags(s.take(i), l).add(bag(t[i].children, l)).add(bags(s.skip(i + 1), l)),
{
    lemma_flats_at(s, i, l);
    lemma_flats_at(t, i, l);
    assert(s.take(i) =~= t.take(i));
    assert(s.skip(i + 1) =~= t.skip(i + 1));
}
/// The entries of a permutation.
pub proof fn lemma_bags_perm<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat)
    requires s.to_multiset() == t.to_multiset()
    ensures bags(s, l) == bags(t, l)
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x));
        assert(t.to_multiset().count(x) > 0);
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        let u = t.remove(j);
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(s.drop_last().to_multiset() == u.to_multiset());
        lemma_bags_perm(s.drop_last(), u, l);
        lemma_flats_push(s.drop_last(), x, l);
        assert(s.drop_last().push(x) =~= s);
        lemma_flats_at(t, j, l);
        lemma_flats_add(t.take(j), t.skip(j + 1), l);
        assert(u =~= t.take(j) + t.skip(j + 1));
        vstd::seq_lib::lemma_multiset_commutative(flats(t.take(j), l), flats(t.skip(j + 1), l));
        assert(bags(s, l) =~= bags(t, l));
    } else {
        assert(s =~= t);
    }
}
pub proof fn lemma_bags_push<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, x: Node<B, K, V>, l: nat)
    requires s.to_multiset().insert(x) == t.to_multiset()
    ensures bags(t, l) == bags(s, l).add(bag(x.children, l))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_flats_push(s, x, l);
    lemma_bags_perm(s.push(x), t, l);
}

// ---- bounds of multisets of entries

pub proof fn lemma_kub_add<B: Bounds, K: Bounded<B>, V>(m: Entries<K, V>, n: Entries<K, V>)
    ensures kub::<B, K, V>(m.add(n)) == kub::<B, K, V>(m).intersect(kub::<B, K, V>(n))
{
    let a = kub::<B, K, V>(m.add(n));
    let b = kub::<B, K, V>(m).intersect(kub::<B, K, V>(n));
    assert forall|x: B| a.contains(x) == b.contains(x) by {
        if a.contains(x) {
            assert forall|e: (K, V)| #[trigger] m.count(e) > 0 implies ub::<B, K>(&e.0).contains(x) by { assert(m.add(n).count(e) > 0); }
            assert forall|e: (K, V)| #[trigger] n.count(e) > 0 implies ub::<B, K>(&e.0).contains(x) by { assert(m.add(n).count(e) > 0); }
        }
        if b.contains(x) {
            assert forall|e: (K, V)| #[trigger] m.add(n).count(e) > 0 implies ub::<B, K>(&e.0).contains(x) by { assert(m.count(e) > 0 || n.count(e) > 0); }
        }
    }
    assert(a =~= b);
}
pub proof fn lemma_kub_empty<B: Bounds, K: Bounded<B>, V>()
    ensures kub::<B, K, V>(Multiset::empty()) == ISet::<B>::full(), Seq::<(K, V)>::empty().to_multiset() == Multiset::<(K, V)>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(kub::<B, K, V>(Multiset::empty()) =~= ISet::<B>::full());
    assert(Seq::<(K, V)>::empty().to_multiset() =~= Multiset::<(K, V)>::empty());
}
pub proof fn lemma_kub_one<B: Bounds, K: Bounded<B>, V>(e: (K, V))
    ensures kub::<B, K, V>(Multiset::singleton(e)) == ub::<B, K>(&e.0)
{
    let a = kub::<B, K, V>(Multiset::singleton(e));
    assert forall|x: B| a.contains(x) == ub::<B, K>(&e.0).contains(x) by {
        assert(Multiset::singleton(e).count(e) > 0);
    }
    assert(a =~= ub::<B, K>(&e.0));
}
pub proof fn lemma_kub_leaf<B: Bounds, K: Bounded<B>, V>(s: Seq<(K, V)>, x: B)
    ensures kub::<B, K, V>(s.to_multiset()).contains(x) == forall|i: int| 0 <= i < s.len() ==> ub::<B, K>(&(#[trigger] s[i]).0).contains(x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if kub::<B, K, V>(s.to_multiset()).contains(x) {
        assert forall|i: int| 0 <= i < s.len() implies ub::<B, K>(&(#[trigger] s[i]).0).contains(x) by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); }
    }
    if forall|i: int| 0 <= i < s.len() ==> ub::<B, K>(&(#[trigger] s[i]).0).contains(x) {
        assert forall|e: (K, V)| #[trigger] s.to_multiset().count(e) > 0 implies ub::<B, K>(&e.0).contains(x) by { assert(s.contains(e)); }
    }
}
pub proof fn lemma_kub_bags<B: Bounds, K: Bounded<B>, V>(s: Seq<Node<B, K, V>>, l: nat, x: B)
    ensures kub::<B, K, V>(bags(s, l)).contains(x) == forall|i: int| 0 <= i < s.len() ==> kub::<B, K, V>(bag((#[trigger] s[i]).children, l)).contains(x)
    decreases s.len()
{
    if s.len() == 0 {
        lemma_kub_empty::<B, K, V>();
    } else {
        let r = s.drop_last();
        lemma_kub_bags::<B, K, V>(r, l, x);
        lemma_flats_push(r, s.last(), l);
        assert(r.push(s.last()) =~= s);
        lemma_kub_add::<B, K, V>(bags(r, l), bag(s.last().children, l));
        if forall|i: int| 0 <= i < s.len() ==> kub::<B, K, V>(bag((#[trigger] s[i]).children, l)).contains(x) {
            assert forall|i: int| 0 <= i < r.len() implies kub::<B, K, V>(bag((#[trigger] r[i]).children, l)).contains(x) by { assert(r[i] == s[i]); }
            assert(s[s.len() - 1] == s.last());
        }
        if kub::<B, K, V>(bags(s, l)).contains(x) {
            assert forall|i: int| 0 <= i < s.len() implies kub::<B, K, V>(bag((#[trigger] s[i]).children, l)).contains(x) by {
                if i < r.len() { assert(r[i] == s[i]); }
            }
        }
    }
}

/// good trees fit
pub proof fn lemma_fits<B: Bounds, K: Bounded<B>, V>(c: NodeChildren<B, K, V>, l: nat, a: Alloc)
    requires cgood::<B, K, V>(c, l, a)
    ensures fits(c, l, a.children.cap as nat)
    decreases l
{
    if l > 0 {
        assert forall|i: int| 0 <= i < inner(c)@.len() implies fits((#[trigger] inner(c)@[i]).children, (l - 1) as nat, a.children.cap as nat) by {
            assert(child_ok::<B, K, V>(inner(c)@[i], (l - 1) as nat, a));
            lemma_fits::<B, K, V>(inner(c)@[i].children, (l - 1) as nat, a);
        }
    }
}

//@ in (Key,Value) as Bounded<B>
    open spec fn bounds_spec(&self, b: &B) -> bool { self.0.bounds_spec(b) }
    open spec fn bdlaw() -> bool { Key::bdlaw() }
    open spec fn bounds_req(&self) -> bool { self.0.bounds_req() }
//@ in Node<B,Key,Value> as Bounded<B>
    open spec fn bounds_spec(&self, b: &B) -> bool { bounds_law::<B>() ==> B::up(*b) == B::up(self.bounds) }
    open spec fn bdlaw() -> bool { true }
    open spec fn bounds_req(&self) -> bool { true }
//@ in NodeRef<'a,B,Key,Value> as Bounded<B>
    open spec fn bounds_spec(&self, b: &B) -> bool { bounds_law::<B>() ==> B::up(*b) == B::up(self.node.bounds) }
    open spec fn bdlaw() -> bool { true }
    open spec fn bounds_req(&self) -> bool { true }
//@ in NodeRefMut<'a,B,Key,Value> as Bounded<B>
    open spec fn bounds_spec(&self, b: &B) -> bool { bounds_law::<B>() ==> B::up(*b) == B::up(self.node.bounds) }
    open spec fn bdlaw() -> bool { true }
    open spec fn bounds_req(&self) -> bool { true }
//@ in NodeEntry<B,Key,Value> as Bounded<B>
    open spec fn bounds_spec(&self, b: &B) -> bool {
        match *self { NodeEntry::Inner(c) => bounds_law::<B>() ==> B::up(*b) == B::up(c.node.bounds), NodeEntry::Leaf(e) => e.0.bounds_spec(b) }
    }
    open spec fn bdlaw() -> bool { Key::bdlaw() }
    open spec fn bounds_req(&self) -> bool {
        match *self { NodeEntry::Inner(c) => true, NodeEntry::Leaf(e) => e.0.bounds_req() }
    }
//@ fn Node::new
    ensures res.bounds == bounds, res.children == children
//@ fn Node::inner_children
    requires is_inner(self.children)
    ensures *res == inner(self.children)
//@ fn Node::inner_children_mut
    requires is_inner(old(self).children)
    ensures *res == inner(old(self).children), is_inner(final(self).children), *final(res) == inner(final(self).children), final(self).bounds == old(self).bounds
//@ fn Node::leaf_children
    requires is_leaf(self.children)
    ensures *res == leaf(self.children)
//@ fn Node::leaf_children_mut
    requires is_leaf(old(self).children)
    ensures *res == leaf(old(self).children), is_leaf(final(self).children), *final(res) == leaf(final(self).children), final(self).bounds == old(self).bounds
//@ fn Alloc::new_alloc
    ensures res.min_children == min_children, res.children.cap == max_children
//@ fn Alloc::new_leaf
    requires self.children.cap >= 1
    ensures
        res.alloc == *self, res.level == 0,
        kind(res.node.children, 0), leaf(res.node.children)@.len() == 0, leaf(res.node.children).cap() == self.children.cap,
        B::blaw() ==> B::is_empty_bounds(&res.node.bounds),
//@ fn Alloc::wrap
    ensures res == (NodeContainer { alloc: *self, level, node })
//@ fn Alloc::wrap_ref_mut
    ensures *res.node == *old(node), *final(res.node) == *final(node), res.alloc == *self, res.level == level
//@ fn Alloc::clone_node
    requires
        self.children.cap >= 1, fits(node.node.children, node.level as nat, self.children.cap as nat),
    ensures
        res.alloc == *self, res.level == node.level, call_ensures(B::clone, (&node.node.bounds,), res.node.bounds),
        cloned_children(node.node.children, res.node.children, node.level as nat, self.children.cap as nat),
    decreases node.level, 1nat
//@ fn Alloc::clone_children
attr #[verifier::loop_isolation(false)]
    requires
        self.children.cap >= 1,
        children is Leaf ==> children->Leaf_0@.len() <= self.children.cap,
        children is Inner ==> children->Inner_0.level@ >= 1 && children->Inner_0.children.wf() && children->Inner_0.children.cap() == self.children.cap && forall|i: int| 0 <= i < children->Inner_0.children@.len() ==>
            fits((#[trigger] children->Inner_0.children@[i]).children, (children->Inner_0.level@ - 1) as nat, self.children.cap as nat),
    ensures
        match children {
            NodeChildrenRef::Leaf(c) => res is Leaf && res->Leaf_0.wf() && res->Leaf_0.ops == self.children && clones(c@, res->Leaf_0@),
            NodeChildrenRef::Inner(c) => res is Inner && res->Inner_0.wf() && res->Inner_0.alloc == *self && res->Inner_0.level == c.level
                && cloned_nodes(c.children@, res->Inner_0.children@, (c.level@ - 1) as nat, self.children.cap as nat),
        }
    decreases children.lv(), 0nat
//@ rewrite for child in children { ==> for child in children.into_iter() {
//@ start
        let ghost c0 = children;
        let ghost v = children->Inner_0.children@;
        let ghost k = (children->Inner_0.level@ - 1) as nat;
//@ loop 0 iter it
                    invariant
                        c0 is Inner, c0->Inner_0.level == level, v == c0->Inner_0.children@, k == level@ - 1, level@ >= 1, self.children.cap >= 1,
                        v.len() <= self.children.cap, c0.lv() == level@,
                        forall|i: int| 0 <= i < v.len() ==> fits((#[trigger] v[i]).children, k, self.children.cap as nat),
                        it.seq() == child_refs(v, level@), clone_children.wf(), clone_children.ops == self.children, clone_children@.len() == it.index(),
                        cloned_nodes(v.take(it.index()), clone_children@, k, self.children.cap as nat),
//@ loopstart 0
                    let ghost w = clone_children@;
                    let ghost j = it.index();
                    proof { assert(child == it.seq()[j] && *child.node == v[j]); }
//@ loopend 0
                    proof {
                        assert(clone_children@ =~= w.push(clone_children@[j]));
                        assert(v.take(j + 1) =~= v.take(j).push(v[j]));
                    }
//@ afterloop 0
                proof { assert(v.take(v.len() as int) =~= v); }
//@ fn NodeContainer<B,Key,Value> as Clone::clone
    requires self.alloc.children.cap >= 1, fits(self.node.children, self.level as nat, self.alloc.children.cap as nat)
    ensures
        res.alloc == self.alloc, res.level == self.level, call_ensures(B::clone, (&self.node.bounds,), res.node.bounds),
        cloned_children(self.node.children, res.node.children, self.level as nat, self.alloc.children.cap as nat),
//@ fn NodeEntry::target_level
    requires self is Inner ==> self->Inner_0.level < usize::MAX
    ensures res == (match *self { NodeEntry::Inner(c) => c.level + 1, NodeEntry::Leaf(_) => 0 })

// ---- shared access
//@ fn NodeRef::new
    ensures res == (NodeRef { level, node })
//@ fn NodeRef::level
    ensures res == self.level
//@ fn NodeRef::node
    ensures res == self.node
//@ fn NodeRef::children
    requires kind(self.node.children, self.level as nat)
    ensures
        self.level == 0 ==> res is Leaf && res->Leaf_0@ == leaf(self.node.children)@,
        self.level > 0 ==> res is Inner && res->Inner_0.level@ == self.level && *res->Inner_0.children == inner(self.node.children),
//@ fn NodeRef::len
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires self.wf(), flat(self.node.children, self.level as nat).len() <= usize::MAX
    ensures res == flat(self.node.children, self.level as nat).len()
    decreases self.level
//@ rewrite for child in children { ==> for child in children.into_iter() {
//@ start
        let ghost cap = choose|cap: nat| #[trigger] fits(self.node.children, self.level as nat, cap);
        let ghost c = self.node.children;
        let ghost l = (self.level - 1) as nat;
//@ loop 0 iter it
                    invariant
                        self.level > 0, l == self.level - 1, c == self.node.children, fits(c, self.level as nat, cap),
                        it.seq() == child_refs(inner(c)@, self.level), size == flats(inner(c)@.take(it.index()), l).len(),
                        flats(inner(c)@, l).len() <= usize::MAX,
//@ loopstart 0
                    proof {
                        lemma_flats_at(inner(c)@, it.index(), l);
                        assert(child == it.seq()[it.index()] && *child.node == inner(c)@[it.index()]);
                        assert(fits(child.node.children, child.level as nat, cap));
                    }
//@ afterloop 0
                proof { assert(inner(c)@.take(inner(c)@.len() as int) =~= inner(c)@); }
//@ fn NodeRef::is_empty
    requires kind(self.node.children, self.level as nat)
    ensures res == (clen(self.node.children, self.level as nat) == 0)
//@ fn NodeRef::get
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires self.wf(), key.bounds_req(), tight::<B, Key, Value>(*self.node, self.level as nat), law::<B, Key>(), borrow_law::<B, Key, Q>()
    ensures
        res is None ==> no_match(flat(self.node.children, self.level as nat), key),
        res is Some ==> exists|i: int| #[trigger] first_match(flat(self.node.children, self.level as nat), key, i) && *res->Some_0 == flat(self.node.children, self.level as nat)[i].1,
    decreases self.level
//@ rewrite for child in children { ==> for child in children.into_iter() {
//@ rewrite children.iter().find($f).map($g) ==> { let mut it = children.iter(); let ghost it0 = it; let r = it.find($f); proof { lemma_get_leaf(r, it0, it, leaf(c)@, key); } r.map($g) }
//@ start
        let ghost cap = choose|cap: nat| #[trigger] fits(self.node.children, self.level as nat, cap);
        let ghost c = self.node.children;
        let ghost l = (self.level - 1) as nat;
//@ loop 0 iter it
                    invariant
                        self.level > 0, l == self.level - 1, c == self.node.children, fits(c, self.level as nat, cap),
                        tight::<B, Key, Value>(*self.node, self.level as nat), law::<B, Key>(), borrow_law::<B, Key, Q>(), key.bounds_req(),
                        it.seq() == child_refs(inner(c)@, self.level), no_match(flats(inner(c)@.take(it.index()), l), key),
//@ loopstart 0
                    let ghost k = it.index();
                    proof {
                        lemma_flats_at(inner(c)@, k, l);
                        assert(child == it.seq()[k] && *child.node == inner(c)@[k]);
                        assert(fits(child.node.children, child.level as nat, cap) && tight::<B, Key, Value>(inner(c)@[k], l));
                        lemma_no_match_add(flats(inner(c)@.take(k), l), flat(inner(c)@[k].children, l), key);
                        lemma_prune_all::<B, Key, Value, Q>(inner(c)@[k], l, key);
                    }
//@ before return Some(value)
                            proof {
                                let fc = flat(inner(c)@[k].children, l);
                                let i = choose|i: int| #[trigger] first_match(fc, key, i) && *value == fc[i].1;
                                lemma_first_match(flats(inner(c)@.take(k), l), fc, flats(inner(c)@.skip(k + 1), l), key, i);
                            }
//@ afterloop 0
                proof { assert(inner(c)@.take(inner(c)@.len() as int) =~= inner(c)@); }
//@ closure 0 | e: &&'a (Key, Value) | -> (r: bool)
    ensures r == matches(e.0, key)
//@ closure 1 | e: &'a (Key, Value) | -> (r: &'a Value)
    ensures *r == e.1
//@ fn InnerNodeChildrenRef::level
    ensures res == self.level
//@ fn InnerNodeChildrenRef::vec
    ensures res == self.children
//@ fn InnerNodeChildrenRef::len
    ensures res == self.children.len
//@ fn InnerNodeChildrenRef::is_empty
    requires self.children.wf()
    ensures res == (self.children.len == 0)
//@ rewrite self.children.is_empty() ==> self.children.deref().is_empty()
//@ fn InnerNodeChildrenRef::iter
    requires self.children.wf()
    ensures res.obeys_prophetic_iter_laws(), res.decrease() is Some, res.remaining() == child_refs(self.children@, self.level@)
//@ fn InnerNodeChildrenRef<'a,B,Key,Value> as IntoIterator::into_iter
    requires self.children.wf()
    ensures res.obeys_prophetic_iter_laws(), res.decrease() is Some, res.remaining() == child_refs(self.children@, self.level@)
//@ fn NodeChildrenRef::len
    ensures res == (match *self { NodeChildrenRef::Inner(c) => c.children.len, NodeChildrenRef::Leaf(s) => s@.len() as usize })
//@ fn InnerNodeChildrenIter<'a,B,Key,Value> as Iterator::next
//@ rewrite self.level.get() ==> lv
//@ start
        let lv = self.level.get();
//@ closure 0 | node: &'a Node<B, Key, Value> | -> (r: NodeRef<'a, B, Key, Value>)
    requires lv >= 1
    ensures r == (NodeRef { level: (lv - 1) as usize, node })
// ---- exclusive access
//@ fn NodeRefMut::level
    ensures res == self.level
//@ fn NodeRefMut::node
    ensures *res == *old(self.node)
//@ fn NodeRefMut::into_node
    ensures *res == *old(self.node), *final(res) == *final(self.node)
//@ fn NodeRefMut::into_children_mut
    requires kind(self.node.children, self.level as nat)
    ensures children_of(res, *old(self.node), *final(self.node), self.alloc, self.level)
//@ fn NodeRefMut::children_mut
    requires kind(old(self).node.children, old(self).level as nat)
    ensures
        children_of(res, *old(self).node, *final(self).node, old(self).alloc, old(self).level),
        final(self).same(old(self)),
//@ fn NodeRefMut::drop
    requires fits(self.node.children, self.level as nat, self.alloc.children.cap as nat)
    ensures gone(*final(self.node))
    decreases self.level, 1nat
//@ start
        broadcast use glue_entry;
//@ fn NodeRefMut::is_empty
    requires kind(self.node.children, self.level as nat)
    ensures res == (clen(old(self.node).children, self.level as nat) == 0)
//@ fn NodeRefMut::shallow_len
    requires kind(self.node.children, self.level as nat)
    ensures res == clen(old(self.node).children, self.level as nat)
//@ fn NodeRefMut::into_get_mut
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        fits(self.node.children, self.level as nat, self.alloc.children.cap as nat), key.bounds_req(),
        tight::<B, Key, Value>(*self.node, self.level as nat), law::<B, Key>(), borrow_law::<B, Key, Q>(),
    ensures found(res, *old(self.node), *final(self.node), self.level as nat, key)
    decreases self.level
//@ rewrite children.into_iter().find($f).map(|(_, v)| v) ==> { let it = children.into_iter(); let ghost it0 = it; let r = find_mut(it, $f); proof { lemma_found_leaf(r, it0, leaf(n0.children)@, key); } match r { Some(e) => Some(&mut e.1), None => None } }
//@ forloop 0 iter
//@ closure 0 | e: &(Key, Value) | -> (r: bool)
    ensures r == matches(e.0, key)
//@ start
        broadcast use {iter_mut_resolved, lemma_finals};
        let ghost n0 = *self.node;
        let ghost lev = self.level;
        let ghost cap = self.alloc.children.cap as nat;
        let ghost l = (self.level - 1) as nat;
        let ghost s = inner(n0.children)@;
//@ beforeloop 0
                let ghost it0 = iter;
                let ghost mut k: int = 0;
//@ loop 0
                    invariant
                        iter.obeys_prophetic_iter_laws(), iter.will_return_none(),
                        0 <= k <= s.len(), it0.remaining().len() == s.len(), iter.remaining() == it0.remaining().skip(k),
                        child_muts(it0.remaining(), s, finals(it0.remaining()), self.alloc, lev),
                        no_match(flats(s.take(k), l), key),
                        forall|j: int| 0 <= j < k ==> like(#[trigger] s[j], finals(it0.remaining())[j], l) && flat(s[j].children, l) == flat(finals(it0.remaining())[j].children, l),
                    ensures k == s.len()
                    decreases s.len() - k
//@ loopstart 0
                    broadcast use iter_mut_resolved;
                    let ghost c0 = *child.node;
                    proof {
                        assert(child == it0.remaining()[k]);
                        assert(c0 == s[k]);
                        lemma_flats_at(s, k, l);
                        assert(fits(s[k].children, l, cap) && tight::<B, Key, Value>(s[k], l));
                        lemma_no_match_add(flats(s.take(k), l), flat(s[k].children, l), key);
                        lemma_prune_all::<B, Key, Value, Q>(s[k], l, key);
                        lemma_like_refl(s[k], l, cap);
                        assert(iter.remaining() =~= it0.remaining().skip(k + 1));
                    }
//@ loopend 0
                    proof {
                        k = k + 1;
                    }
//@ before return Some(value)
                            proof {
                                assert forall|j: int| k < j < s.len() implies like(#[trigger] s[j], finals(it0.remaining())[j], l) && flat(s[j].children, l) == flat(finals(it0.remaining())[j].children, l) by {
                                    assert(has_resolved(iter));
                                    assert(has_resolved(iter.children));
                                    assert(iter.remaining()[j - k - 1] == it0.remaining()[j]);
                                    assert(has_resolved(IteratorSpec::remaining(&iter.children)[j - k - 1]));
                                    assert(fits(s[j].children, l, cap));
                                    lemma_like_refl(s[j], l, cap);
                                }
                                assert(*final(child.node) == finals(it0.remaining())[k]);
                                lemma_found_at(Some(value), s, finals(it0.remaining()), k, l, key);
                            }
//@ afterloop 0
                proof {
                    assert(s.take(s.len() as int) =~= s);
                    lemma_flats_same(s, finals(it0.remaining()), l);
                }
//@ fn NodeRefMut::get_mut
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        fits(old(self).node.children, old(self).level as nat, old(self).alloc.children.cap as nat), key.bounds_req(),
        tight::<B, Key, Value>(*old(self).node, old(self).level as nat), law::<B, Key>(), borrow_law::<B, Key, Q>(),
    ensures found(res, *old(self).node, *final(self).node, old(self).level as nat, key), final(self).same(old(self))
    decreases old(self).level
//@ rewrite children.into_iter().find($f).map(|(_, v)| v) ==> { let it = children.into_iter(); let ghost it0 = it; let r = find_mut(it, $f); proof { lemma_found_leaf(r, it0, leaf(n0.children)@, key); } match r { Some(e) => Some(&mut e.1), None => None } }
//@ forloop 0 iter
//@ closure 0 | e: &(Key, Value) | -> (r: bool)
    ensures r == matches(e.0, key)
//@ start
        broadcast use {iter_mut_resolved, lemma_finals};
        let ghost n0 = *old(self).node;
        let ghost lev = self.level;
        let ghost cap = self.alloc.children.cap as nat;
        let ghost l = (self.level - 1) as nat;
        let ghost s = inner(n0.children)@;
//@ beforeloop 0
                let ghost it0 = iter;
                let ghost mut k: int = 0;
//@ loop 0
                    invariant
                        iter.obeys_prophetic_iter_laws(), iter.will_return_none(),
                        0 <= k <= s.len(), it0.remaining().len() == s.len(), iter.remaining() == it0.remaining().skip(k),
                        child_muts(it0.remaining(), s, finals(it0.remaining()), old(self).alloc, lev),
                        no_match(flats(s.take(k), l), key),
                        forall|j: int| 0 <= j < k ==> like(#[trigger] s[j], finals(it0.remaining())[j], l) && flat(s[j].children, l) == flat(finals(it0.remaining())[j].children, l),
                    ensures k == s.len()
                    decreases s.len() - k
//@ loopstart 0
                    broadcast use iter_mut_resolved;
                    let ghost c0 = *child.node;
                    proof {
                        assert(child == it0.remaining()[k]);
                        assert(c0 == s[k]);
                        lemma_flats_at(s, k, l);
                        assert(fits(s[k].children, l, cap) && tight::<B, Key, Value>(s[k], l));
                        lemma_no_match_add(flats(s.take(k), l), flat(s[k].children, l), key);
                        lemma_prune_all::<B, Key, Value, Q>(s[k], l, key);
                        lemma_like_refl(s[k], l, cap);
                        assert(iter.remaining() =~= it0.remaining().skip(k + 1));
                    }
//@ loopend 0
                    proof {
                        k = k + 1;
                    }
//@ before return Some(value)
                            proof {
                                assert forall|j: int| k < j < s.len() implies like(#[trigger] s[j], finals(it0.remaining())[j], l) && flat(s[j].children, l) == flat(finals(it0.remaining())[j].children, l) by {
                                    assert(has_resolved(iter));
                                    assert(has_resolved(iter.children));
                                    assert(iter.remaining()[j - k - 1] == it0.remaining()[j]);
                                    assert(has_resolved(IteratorSpec::remaining(&iter.children)[j - k - 1]));
                                    assert(fits(s[j].children, l, cap));
                                    lemma_like_refl(s[j], l, cap);
                                }
                                assert(*final(child.node) == finals(it0.remaining())[k]);
                                lemma_found_at(Some(value), s, finals(it0.remaining()), k, l, key);
                            }
//@ afterloop 0
                proof {
                    assert(s.take(s.len() as int) =~= s);
                    lemma_flats_same(s, finals(it0.remaining()), l);
                }
//@ fn InnerNodeChildrenRefMut::level
    ensures res == self.level
//@ fn InnerNodeChildrenRefMut::vec_mut
    ensures
        *res.data == *old(self).children, *final(res.data) == *final(self).children, res.ops == old(self).alloc.children, final(self).same(old(self)),
//@ fn InnerNodeChildrenRefMut::into_vec_mut
    ensures
        *res.data == *old(self.children), *final(res.data) == *final(self.children), res.ops == self.alloc.children,
//@ fn InnerNodeChildrenRefMut::drop
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        self.wf(), forall|i: int| 0 <= i < self.children@.len() ==> fits((#[trigger] self.children@[i]).children, (self.level@ - 1) as nat, self.alloc.children.cap as nat),
    ensures final(self.children).dead()
    decreases self.level@, 0nat
//@ start
        broadcast use {glue_node, glue_entry};
        let ghost s = self.children@;
        let ghost cap = self.alloc.children.cap as nat;
        let ghost lv = self.level@;
        let ghost al = self.alloc;
        broadcast use lemma_finals;
//@ forloop 0 iter
//@ beforeloop 0
        let ghost it0 = iter;
        let ghost mut k: int = 0;
//@ loop 0
            invariant
                iter.obeys_prophetic_iter_laws(), iter.will_return_none(),
                0 <= k <= s.len(), iter.remaining() == it0.remaining().skip(k),
                child_muts(it0.remaining(), s, finals(it0.remaining()), al, lv),
                forall|j: int| 0 <= j < k ==> gone(#[trigger] finals(it0.remaining())[j]),
            ensures k == s.len()
            decreases s.len() - k
//@ loopstart 0
            proof {
                assert(child == it0.remaining()[k]);
                assert(fits(s[k].children, (lv - 1) as nat, cap));
                assert(iter.remaining() =~= it0.remaining().skip(k + 1));
                assert(finals(it0.remaining())[k] == *final(child.node));
            }
//@ loopend 0
            proof { k = k + 1; }
//@ fn InnerNodeChildrenRefMut::len
    ensures res == old(self.children).len
//@ fn InnerNodeChildrenRefMut::at_mut
    requires old(self).wf(), index < old(self).children@.len()
    ensures
        final(self).wf(), final(self).same(old(self)),
        *res.node == old(self).children@[index as int], res.alloc == old(self).alloc, res.level == old(self).level@ - 1,
        final(self).children@ == old(self).children@.update(index as int, *final(res.node)),
//@ fn InnerNodeChildrenRefMut::swap_remove
    requires old(self).wf(), index < old(self).children@.len()
    ensures
        final(self).wf(), final(self).same(old(self)),
        res == (NodeContainer { alloc: old(self).alloc, level: (old(self).level@ - 1) as usize, node: old(self).children@[index as int] }), old(self).level@ >= 1,
        final(self).children@ == old(self).children@.update(index as int, old(self).children@.last()).drop_last(),
//@ fn InnerNodeChildrenRefMut::iter
    requires self.children.wf()
    ensures res.obeys_prophetic_iter_laws(), res.decrease() is Some, res.remaining() == child_refs(old(self.children)@, self.level@)
//@ fn InnerNodeChildrenRefMut::iter_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).children@.len() == old(self).children@.len(),
        res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some, res.remaining().len() == old(self).children@.len(),
        child_muts(res.remaining(), old(self).children@, final(self).children@, old(self).alloc, old(self).level@),
//@ fn InnerNodeChildrenRefMut<'a,B,Key,Value> as IntoIterator::into_iter
    requires self.wf()
    ensures
        final(self.children).wf(), final(self.children).cap() == old(self.children).cap(), final(self.children)@.len() == old(self.children)@.len(),
        res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some, res.remaining().len() == old(self.children)@.len(),
        child_muts(res.remaining(), old(self.children)@, final(self.children)@, self.alloc, self.level@),
//@ fn InnerNodeChildrenRefMut::try_push
    requires old(self).wf(), node.level == old(self).level@ - 1
    ensures
        final(self).wf(), final(self).same(old(self)),
        old(self).children@.len() < old(self).alloc.children.cap ==> res is None && final(self).children@ == old(self).children@.push(node.node),
        old(self).children@.len() == old(self).alloc.children.cap ==> res == Some(NodeContainer { alloc: old(self).alloc, level: node.level, node: node.node }) && final(self).children@ == old(self).children@,
//@ rewrite unsafe { self.alloc.wrap(node, self.level.get() - 1) } ==> unsafe { alloc.wrap(node, lv - 1) }
//@ start
        let lv = self.level.get();
        let alloc = self.alloc;
//@ closure 0 | node: Node<B, Key, Value> | -> (r: NodeContainer<B, Key, Value>)
    requires lv >= 1
    ensures r == (NodeContainer { alloc, level: (lv - 1) as usize, node })
//@ fn InnerNodeChildrenRefMut::split
    requires
        old(self).wf(), old(self).children@.len() == old(self).alloc.children.cap, overflow_node.level == old(self).level@ - 1, cfg(old(self).alloc), law::<B, Key>(),
    ensures
        final(self).wf(), final(self).same(old(self)),
        res.1.alloc == old(self).alloc, res.1.level == old(self).level@, is_inner(res.1.node.children), inner(res.1.node.children).wf(), inner(res.1.node.children).cap() == old(self).alloc.children.cap,
        old(self).alloc.min_children <= final(self).children@.len(), old(self).alloc.min_children <= inner(res.1.node.children)@.len(),
        final(self).children@.to_multiset().add(inner(res.1.node.children)@.to_multiset()) == old(self).children@.to_multiset().insert(overflow_node.node),
        B::up(res.0) == ubs::<B, Node<B, Key, Value>>(final(self).children@), B::up(res.1.node.bounds) == ubs::<B, Node<B, Key, Value>>(inner(res.1.node.children)@),
//@ start
        proof { lemma_node_law::<B, Key, Value>(); }
//@ fn InnerNodeChildrenIterMut<'a,B,Key,Value> as Iterator::next
//@ rewrite self.level.get() ==> lv
//@ rewrite self.alloc.wrap_ref_mut ==> alloc.wrap_ref_mut
//@ start
        let lv = self.level.get();
        let alloc = self.alloc;
        let ghost it0 = self.children;
//@ closure 0 | node: &'a mut Node<B, Key, Value> | -> (r: NodeRefMut<'a, B, Key, Value>)
    requires lv >= 1
    ensures r.level == lv - 1, r.alloc == alloc, *r.node == *old(node), *final(r.node) == *final(node)
//@ tailbind out
        proof {
            if out is Some { mut_ref_ext(out->Some_0.node, it0.remaining()[0]); }
        }
//@ fn NodeContainer::borrow
    ensures res == (NodeRef { level: self.level, node: &self.node })
//@ fn NodeContainer::borrow_mut
    ensures
        *res.node == old(self).node, *final(res.node) == final(self).node, res.alloc == old(self).alloc, res.level == old(self).level,
        final(self).alloc == old(self).alloc, final(self).level == old(self).level,
//@ fn NodeContainer::children
    requires kind(self.node.children, self.level as nat)
    ensures
        self.level == 0 ==> res is Leaf && res->Leaf_0.data == leaf(self.node.children) && res->Leaf_0.ops == self.alloc.children,
        self.level > 0 ==> res is Inner && res->Inner_0.children == inner(self.node.children) && res->Inner_0.alloc == self.alloc && res->Inner_0.level@ == self.level,
//@ fn NodeContainer::leak
    ensures res == self.node
//@ fn NodeContainer<B,Key,Value> as Drop::drop
    requires fits(old(self).node.children, old(self).level as nat, old(self).alloc.children.cap as nat)
    ensures gone(final(self).node)
//@ fn InnerNodeChildrenContainer<B,Key,Value> as IntoIterator::into_iter
    requires self.wf()
    ensures res.wf(), res.alloc == self.alloc, res.level == self.level, res.children@ == self.children@
//@ fn InnerNodeChildrenContainer<B,Key,Value> as Drop::drop
    requires
        old(self).wf(), forall|i: int| 0 <= i < old(self).children@.len() ==> fits((#[trigger] old(self).children@[i]).children, (old(self).level@ - 1) as nat, old(self).alloc.children.cap as nat),
    ensures final(self).children.dead()
//@ fn InnerNodeChildrenContainer::borrow
    ensures res.level == self.level, *res.children == self.children
//@ fn InnerNodeChildrenContainer::borrow_mut
    ensures
        *res.children == old(self).children, *final(res.children) == final(self).children, res.alloc == old(self).alloc, res.level == old(self).level,
        final(self).alloc == old(self).alloc, final(self).level == old(self).level,
//@ fn InnerNodeChildrenContainer::leak
    ensures res == self.children
//@ fn InnerNodeChildrenIntoIter<B,Key,Value> as Iterator::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).alloc == old(self).alloc, final(self).level == old(self).level,
        old(self).children@.len() == 0 ==> res is None && final(self).children@ == old(self).children@,
        old(self).children@.len() > 0 ==> res == Some(NodeContainer { alloc: old(self).alloc, level: (old(self).level@ - 1) as usize, node: old(self).children@.first() })
            && final(self).children@ == old(self).children@.drop_first(),
//@ rewrite unsafe { self.alloc.wrap(node, self.level.get() - 1) } ==> unsafe { alloc.wrap(node, lv - 1) }
//@ start
        let lv = self.level.get();
        let alloc = self.alloc;
//@ closure 0 | node: Node<B, Key, Value> | -> (r: NodeContainer<B, Key, Value>)
    requires lv >= 1
    ensures r == (NodeContainer { alloc, level: (lv - 1) as usize, node })
//@ fn InnerNodeChildrenIntoIter<B,Key,Value> as Drop::drop
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        old(self).wf(), forall|i: int| 0 <= i < old(self).children@.len() ==> fits((#[trigger] old(self).children@[i]).children, (old(self).level@ - 1) as nat, old(self).alloc.children.cap as nat),
    ensures final(self).children.wf(), final(self).children@.len() == 0
//@ rewrite for _ in &mut *self {} ==> loop { match self.next() { Some(mut c) => c.drop(), None => break, } }
//@ loop 0
            invariant
                self.wf(), self.alloc == old(self).alloc, self.level == old(self).level,
                forall|i: int| 0 <= i < self.children@.len() ==> fits((#[trigger] self.children@[i]).children, (self.level@ - 1) as nat, self.alloc.children.cap as nat),
            ensures self.children@.len() == 0
            decreases self.children@.len()
//@ loopstart 0
            let ghost v0 = self.children@;
            proof { if v0.len() > 0 { assert(fits(v0[0].children, (self.level@ - 1) as nat, self.alloc.children.cap as nat)); } assert(v0.len() > 0 ==> forall|i: int| 0 <= i < v0.len() - 1 ==> v0.drop_first()[i] == v0[i + 1]); }
//@ fn NodeChildrenContainer::level
    ensures res == (match *self { NodeChildrenContainer::Inner(c) => c.level@, NodeChildrenContainer::Leaf(_) => 0 })
//@ fn NodeChildrenContainer::borrow
    requires self.wf()
    ensures
        match *self { NodeChildrenContainer::Inner(c) => res is Inner && res->Inner_0.level == c.level && *res->Inner_0.children == c.children, NodeChildrenContainer::Leaf(c) => res is Leaf && res->Leaf_0@ == c@ }
//@ fn NodeChildrenContainer::leak
    ensures
        match self { NodeChildrenContainer::Inner(c) => is_inner(res) && inner(res) == c.children, NodeChildrenContainer::Leaf(c) => is_leaf(res) && leaf(res) == c.data }
//@ fn NodeRefMut::self_insert
    requires
        cfg(old(self).alloc), law::<B, Key>(), good::<B, Key, Value>(*old(self).node, old(self).level as nat, old(self).alloc),
        elevel(entry) == old(self).level, entry_ok::<B, Key, Value>(entry, old(self).alloc),
    ensures
        final(self).same(old(self)),
        inserted::<B, Key, Value>(res, *old(self).node, *final(self).node, old(self).level, old(self).alloc, ebag(entry)),
//@ rewrite Bounds::union(&self.node.bounds, &entry_bounds) ==> B::union(&self.node.bounds, &entry_bounds)
//@ start
        let ghost n0 = *self.node;
        let ghost e0 = entry;
        let ghost a = self.alloc;
        let ghost l = self.level as nat;
        proof { if l > 0 { assert(inner(n0.children).cap() == a.children.cap); } }
//@ tailbind out
        proof {
            lemma_entry_bounds::<B, Key, Value>(e0, a, entry_bounds);
            let n1 = *self.node;
            match e0 {
                NodeEntry::Inner(x) => {
                    if out is Some { lemma_split_inner::<B, Key, Value>(n0, n1, out->Some_0.node, x.node, l, a); } else { lemma_pushed_inner::<B, Key, Value>(n0, n1, x.node, l, a); }
                }
                NodeEntry::Leaf(x) => {
                    if out is Some { lemma_split_leaf::<B, Key, Value>(n0, n1, out->Some_0.node, x, a); } else { lemma_pushed_leaf::<B, Key, Value>(n0, n1, x, a); }
                }
            }
        }
//@ fn NodeRefMut::insert
    requires
        cfg(old(self).alloc), law::<B, Key>(), good::<B, Key, Value>(*old(self).node, old(self).level as nat, old(self).alloc),
        elevel(entry) <= old(self).level, entry_ok::<B, Key, Value>(entry, old(self).alloc), elevel(entry) < old(self).level ==> clen(old(self).node.children, old(self).level as nat) >= 1,
    ensures
        final(self).same(old(self)),
        inserted::<B, Key, Value>(res, *old(self).node, *final(self).node, old(self).level, old(self).alloc, ebag(entry)),
    decreases old(self).level
//@ rewrite let mut $x:id = selector.select(children.iter_mut(), &entry_bounds).unwrap(); ==> let it = children.iter_mut(); let ghost it0 = it; let mut $x = selector.select(it, &entry_bounds).unwrap();
//@ start
        let ghost n0 = *self.node;
        let ghost e0 = entry;
        let ghost a = self.alloc;
        let ghost l = self.level as nat;
        let ghost k = (l - 1) as nat;
        let ghost v = inner(n0.children)@;
//@ after let mut insert_child = $e;
            let ghost i = choose|i: int| 0 <= i < v.len() && insert_child == #[trigger] it0.remaining()[i]
                && forall|j: int| 0 <= j < v.len() && j != i ==> has_resolved(#[trigger] it0.remaining()[j]);
            proof { assert(child_ok::<B, Key, Value>(v[i], k, a)); }
//@ before self.node.bounds = union_all_map($x);
                let ghost c1 = children.children@[i];
                let ghost v1 = children.children@;
                proof {
                    assert(forall|j: int| 0 <= j < v.len() && j != i ==> *final((#[trigger] it0.remaining()[j]).node) == v[j]);
                    assert(v1 =~= v.update(i, c1));
                    assert(inserted::<B, Key, Value>(Some(new_child), v[i], c1, (l - 1) as usize, a, ebag(e0)));
                }
//@ after self.node.bounds = union_all_map($x);
                let ghost n1 = *self.node;
                proof {
                    assert(inner(n1.children)@ == v1);
                    assert(exists|s: Seq<B>| bounds_of(v1, s) && B::up(n1.bounds) == #[trigger] B::up_all(s));
                    let s = choose|s: Seq<B>| bounds_of(v1, s) && B::up(n1.bounds) == #[trigger] B::up_all(s);
                    assert forall|j: int| 0 <= j < v1.len() implies child_ok::<B, Key, Value>(#[trigger] v1[j], k, a) by { if j != i { assert(child_ok::<B, Key, Value>(v[j], k, a)); } }
                    lemma_good_union::<B, Key, Value>(n1, l, a, s);
                    lemma_flats_update(v, v1, i, k);
                }
//@ closure 0 | child: NodeRef<'_, B, Key, Value> | -> (r: B)
    ensures child.bounds_spec(&r)
//@ before self.self_insert(splitter, NodeEntry::Inner(new_child))
                proof {
                    let rest = bags(v.take(i), k).add(bags(v.skip(i + 1), k));
                    assert(bag(n1.children, l).add(bag(new_child.node.children, k)) =~= rest.add(bag(c1.children, k).add(bag(new_child.node.children, k))));
                    assert(bag(n0.children, l).add(ebag(e0)) =~= rest.add(bag(v[i].children, k).add(ebag(e0))));
                }
//@ after self.node.bounds = B::union($x, $y);
                proof {
                    lemma_entry_bounds::<B, Key, Value>(e0, a, entry_bounds);
                    let n1 = *self.node;
                    let v1 = inner(n1.children)@;
                    assert(forall|j: int| 0 <= j < v.len() && j != i ==> *final((#[trigger] it0.remaining()[j]).node) == v[j]);
                    assert(v1 =~= v.update(i, v1[i]));
                    assert(inserted::<B, Key, Value>(None, v[i], v1[i], (l - 1) as usize, a, ebag(e0)));
                    lemma_updated::<B, Key, Value>(n0, n1, i, l, a, ebag(e0));
                }
//@ fn NodeRefMut::insert_unique
attr #[verifier::rlimit(60)]
attr #[verifier::spinoff_prover]
    requires
        cfg(old(self).alloc), law::<B, Key>(), borrow_law::<B, Key, Key>(), good::<B, Key, Value>(*old(self).node, old(self).level as nat, old(self).alloc),
        key.bounds_req(), 0 < old(self).level ==> clen(old(self).node.children, old(self).level as nat) >= 1,
    ensures
        final(self).same(old(self)),
        unique_inserted::<B, Key, Value>(res, *old(self).node, *final(self).node, old(self).level, old(self).alloc, key, value),
    decreases old(self).level
//@ rewrite match get_only(children.iter_mut().filter($f),) { ==> let it = children.iter_mut(); let ghost it0 = it; let flf = $f; let ghost f0 = flf; proof { assert forall|j: int| 0 <= j < it0.remaining().len() implies call_requires(flf, (&#[trigger] it0.remaining()[j],)) by { assert(cur(it0.remaining()[j]) == v[j]); assert(child_ok::<B, Key, Value>(v[j], k, a)); } } let fl = filter(it, flf); let ghost fl0 = fl; let only = get_only(fl); proof { assert(only is Multiple ==> IteratorSpec::remaining(&fl0).len() >= 2); assert(only is None ==> IteratorSpec::remaining(&fl0).len() == 0 && fl0.will_return_none()); assert(only is Only ==> IteratorSpec::remaining(&fl0).len() == 1 && fl0.will_return_none()); } match only {
//@ rewrite child.bounds().contains(&key.bounds()) ==> { let bb = child.bounds(); let kb = key.bounds(); proof { lemma_prune_with::<B, Key, Value, Key>(cur(*child), child.level as nat, &key, kb, bb); } bb.contains(&kb) }
//@ rewrite if let Some($x:id) = children.iter_mut().find($f) { ==> let it = children.iter_mut(); let ghost it0 = it; let r = find_mut(it, $f); proof { lemma_found_leaf(r, it0, leaf(n0.children)@, &key); } if let Some($x) = r {
//@ closure 0 | child: &NodeRefMut<'_, B, Key, Value> | -> (r: bool)
    requires law::<B, Key>(), borrow_law::<B, Key, Key>(), key.bounds_req(), B::up(cur(*child).bounds) == kub::<B, Key, Value>(bag(cur(*child).children, child.level as nat))
    ensures !r ==> no_match(flat(cur(*child).children, child.level as nat), &key)
//@ closure 1 | child: NodeRef<'_, B, Key, Value> | -> (r: B)
    ensures child.bounds_spec(&r)
//@ closure 2 | e: &(Key, Value) | -> (r: bool)
    ensures r == matches(e.0, &key)
//@ start
        let ghost n0 = *self.node;
        let ghost a = self.alloc;
        let ghost l = self.level as nat;
        let ghost k = (l - 1) as nat;
        let ghost v = inner(n0.children)@;
        let ghost key0 = key;
        let ghost e0 = NodeEntry::<B, Key, Value>::Leaf((key, value));
        proof { lemma_tight::<B, Key, Value>(n0, l, a); }
        broadcast use {lemma_finals, rest_resolved};
//@ before #1 (None, self.insert(selector, splitter, NodeEntry::Leaf((key, value))),)
                        proof {
                            let p = choose|p: Seq<int>| #[trigger] picked(p, it0.remaining(), fl0.remaining(), f0, fl0.will_return_none());
                            assert(p.len() == 0);
                            assert forall|j: int| 0 <= j < v.len() implies no_match(flat((#[trigger] v[j]).children, k), &key) by {
                                assert(!p.contains(j));
                                assert(cur(it0.remaining()[j]) == v[j]);
                            }
                            lemma_no_match_all(v, k, &key);
                            lemma_same_good::<B, Key, Value>(n0, *self.node, l, a);
                        }
//@ before let (old_value, new_child) = $e;
                        let ghost p = choose|p: Seq<int>| #[trigger] picked(p, it0.remaining(), fl0.remaining(), f0, fl0.will_return_none());
                        let ghost i = p[0];
                        proof {
                            assert(p.len() == 1);
                            assert(child == it0.remaining()[i]);
                            assert(child_ok::<B, Key, Value>(v[i], k, a));
                            assert forall|j: int| 0 <= j < v.len() && j != i implies no_match(flat((#[trigger] v[j]).children, k), &key) by {
                                if p.contains(j) { let x = choose|x: int| 0 <= x < p.len() && p[x] == j; assert(x == 0); }
                                assert(cur(it0.remaining()[j]) == v[j]);
                            }
                        }
//@ after let (old_value, new_child) = $e;
                        let ghost v1 = finals(it0.remaining());
                        proof {
                            assert forall|j: int| 0 <= j < v.len() && j != i implies v1[j] == v[j] by {
                                if p.contains(j) { let x = choose|x: int| 0 <= x < p.len() && p[x] == j; assert(x == 0); }
                                assert(has_resolved(it0.remaining()[j]));
                            }
                        }
//@ before self.node.bounds = union_all_map($x);
                                let ghost c1 = children.children@[i];
                                let ghost w = children.children@;
                                proof {
                                    assert(old_value is None);
                                    assert(w =~= v.update(i, c1));
                                    assert(inserted::<B, Key, Value>(Some(new_child), v[i], c1, (l - 1) as usize, a, ebag(e0)));
                                }
//@ after self.node.bounds = union_all_map($x);
                                let ghost n1 = *self.node;
                                proof {
                                    assert(inner(n1.children)@ == w);
                                    assert(exists|s: Seq<B>| bounds_of(w, s) && B::up(n1.bounds) == #[trigger] B::up_all(s));
                                    let s = choose|s: Seq<B>| bounds_of(w, s) && B::up(n1.bounds) == #[trigger] B::up_all(s);
                                    assert forall|j: int| 0 <= j < w.len() implies child_ok::<B, Key, Value>(#[trigger] w[j], k, a) by { if j != i { assert(child_ok::<B, Key, Value>(v[j], k, a)); } }
                                    lemma_good_union::<B, Key, Value>(n1, l, a, s);
                                    lemma_flats_update(v, w, i, k);
                                }
//@ before self.self_insert(splitter, NodeEntry::Inner(new_child))
                                proof {
                                    let rest = bags(v.take(i), k).add(bags(v.skip(i + 1), k));
                                    assert(bag(n1.children, l).add(bag(new_child.node.children, k)) =~= rest.add(bag(c1.children, k).add(bag(new_child.node.children, k))));
                                    assert(bag(n0.children, l).add(ebag(e0)) =~= rest.add(bag(v[i].children, k).add(ebag(e0))));
                                    lemma_no_match_at(v, k, &key0, i);
                                }
//@ after self.node.bounds = B::union($x, $y);
                                proof {
                                    let n1 = *self.node;
                                    let w = inner(n1.children)@;
                                    assert(w =~= v.update(i, w[i]));
                                    lemma_ub::<B, Key>(&key0, entry_bounds);
                                    if old_value is None {
                                        lemma_kub_one::<B, Key, Value>((key0, value));
                                        assert(inserted::<B, Key, Value>(None, v[i], w[i], (l - 1) as usize, a, ebag(e0)));
                                        lemma_updated::<B, Key, Value>(n0, n1, i, l, a, ebag(e0));
                                        lemma_no_match_at(v, k, &key0, i);
                                    } else {
                                        lemma_overwritten_at(v, w, i, k, &key0, old_value->Some_0, value);
                                        lemma_overwritten_good::<B, Key, Value>(n0, n1, i, l, a, &key0, old_value->Some_0, value);
                                    }
                                }
//@ before if let Some(value_ref) = $x { $y } else { $z }
                        proof {
                            assert(fl0.remaining().len() >= 2);
                            let p = choose|p: Seq<int>| #[trigger] picked(p, it0.remaining(), fl0.remaining(), f0, fl0.will_return_none());
                            assert forall|j: int| 0 <= j < v.len() implies has_resolved(#[trigger] it0.remaining()[j]) by {
                                if p.contains(j) { let x = choose|x: int| 0 <= x < p.len() && p[x] == j; assert(fl0.remaining()[x] == it0.remaining()[j]); }
                            }
                            lemma_same_good::<B, Key, Value>(n0, *self.node, l, a);
                            lemma_tight::<B, Key, Value>(*self.node, l, a);
                            lemma_fits::<B, Key, Value>(self.node.children, l, a);
                        }
                        let ghost nm = *self.node;
//@ before #2 (None, self.insert(selector, splitter, NodeEntry::Leaf((key, value))),)
                                proof {
                                    lemma_like_good::<B, Key, Value>(nm, *self.node, l, a);
                                }
//@ before #3 (None, self.insert(selector, splitter, NodeEntry::Leaf((key, value))),)
                        proof {
                            lemma_same_good::<B, Key, Value>(n0, *self.node, l, a);
                        }
//@ rewrite (Some(std::mem::replace(value_ref, value)), None) ==> { let r = std::mem::replace(value_ref, value); proof { lemma_like_good::<B, Key, Value>(nm, *self.node, l, a); assert(overwritten(r, flat(n0.children, l), flat(self.node.children, l), &key, value)); } (Some(r), None) }
//@ rewrite (Some(std::mem::replace(&mut entry.1, value)), None) ==> { let r = std::mem::replace(&mut entry.1, value); proof { lemma_like_good::<B, Key, Value>(n0, *self.node, l, a); assert(overwritten(r, flat(n0.children, l), flat(self.node.children, l), &key, value)); } (Some(r), None) }
//@ fn NodeContainer::insert_unique
    requires
        cfg(old(self).alloc), law::<B, Key>(), borrow_law::<B, Key, Key>(), good::<B, Key, Value>(old(self).node, old(self).level as nat, old(self).alloc),
        key.bounds_req(), 0 < old(self).level ==> clen(old(self).node.children, old(self).level as nat) >= 2,
    ensures
        final(self).alloc == old(self).alloc, good::<B, Key, Value>(final(self).node, final(self).level as nat, final(self).alloc),
        0 < final(self).level ==> clen(final(self).node.children, final(self).level as nat) >= 2,
        res is None ==> no_match(flat(old(self).node.children, old(self).level as nat), &key)
            && bag(final(self).node.children, final(self).level as nat) == bag(old(self).node.children, old(self).level as nat).insert((key, value)),
        res is Some ==> overwritten(res->Some_0, flat(old(self).node.children, old(self).level as nat), flat(final(self).node.children, final(self).level as nat), &key, value),
//@ fn Alloc::wrap_children
    requires kind(children, level as nat)
    ensures
        level == 0 ==> res is Leaf && res->Leaf_0.data == leaf(children) && res->Leaf_0.ops == self.children,
        level > 0 ==> res is Inner && res->Inner_0.children == inner(children) && res->Inner_0.alloc == *self && res->Inner_0.level@ == level,
//@ fn NodeRefMut::remove
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
attr #[verifier::rlimit(60)]
attr #[verifier::spinoff_prover]
    requires
        cfg(old(self).alloc), law::<B, Key>(), borrow_law::<B, Key, Q>(), hit_law::<B, Q>(key), key.bounds_req(),
        good::<B, Key, Value>(*old(self).node, old(self).level as nat, old(self).alloc),
        no_orphans(old(on_underfull).slots@, old(self).level as nat),
    ensures
        final(self).same(old(self)),
        removed::<B, Key, Value, Q>(res, *old(self).node, *final(self).node, old(self).level as nat, old(self).alloc, key, old(on_underfull).slots@, final(on_underfull).slots@),
    decreases old(self).level
//@ rewrite for i in 0..children.len() { ==> let n = children.len(); let mut ix: usize = 0; let mut out: Option<(B, Value)> = None; while ix < n { let i = ix; ix += 1;
//@ rewrite self.node.bounds = $e; return Some(value); } } } None ==> let nb = $e; out = Some((nb, value)); break; } } } if let Some((nb, val)) = out { self.node.bounds = nb; return Some(val); } proof { none_left } None
//@ rewrite child.bounds().intersects(&key.bounds()) ==> { let bb = child.bounds(); let kb = key.bounds(); proof { lemma_prune_hit::<B, Key, Value, Q>(cur(child), child.level as nat, key, kb, bb); } bb.intersects(&kb) }
//@ rewrite on_underfull($x) ==> on_underfull.call($x)
//@ rewrite children.iter().position($f) ==> { let it = children.iter(); let ghost it0 = it; let r = position(it, $f); proof { lemma_position::<Key, Value, Q>(r, it0, leaf(n0.children)@, key); } r }
//@ start
        let ghost n0 = *self.node;
        let ghost a = self.alloc;
        let ghost l = self.level as nat;
        let ghost k = (l - 1) as nat;
        let ghost v = inner(n0.children)@;
        let ghost s0 = on_underfull.slots@;
//@ beforeloop 0
                let ghost c0 = children;
                proof { assert(v.take(0) =~= Seq::empty()); if n == 0 { assert(v =~= Seq::empty()); } }
//@ loop 0
                    invariant_except_break
                        0 <= ix <= n, out is None, children.children@.len() == n, flats(children.children@, k) == flats(v, k),
                        forall|j: int| 0 <= j < n ==> child_ok::<B, Key, Value>(#[trigger] children.children@[j], k, a),
                        no_match(flats(children.children@.take(ix as int), k), key), ix == n ==> no_match(flats(children.children@, k), key),
                        on_underfull.slots@ == s0,
                    invariant
                        cfg(a), law::<B, Key>(), borrow_law::<B, Key, Q>(), hit_law::<B, Q>(key), key.bounds_req(),
                        l > 0, l == old(self).level, k == l - 1, min_children == a.min_children, n == v.len(), children.wf(), children.same(&c0), children.level@ == l, children.alloc == a,
                        no_orphans(s0, l),
                    ensures
                        out is None ==> children.children@.len() == n && flats(children.children@, k) == flats(v, k) && no_match(flats(v, k), key)
                            && (forall|j: int| 0 <= j < n ==> child_ok::<B, Key, Value>(#[trigger] children.children@[j], k, a)) && on_underfull.slots@ == s0,
                        out is Some ==> removed_child::<B, Key, Value, Q>(out->Some_0.1, v, children.children@, k, a, key, s0, on_underfull.slots@)
                            && exists|s: Seq<B>| bounds_of(children.children@, s) && B::up(out->Some_0.0) == #[trigger] B::up_all(s),
                    decreases n - ix
//@ before let mut child = children.at_mut(i);
                    let ghost w = children.children@;
                    proof {
                        assert(child_ok::<B, Key, Value>(w[i as int], k, a));
                        lemma_flats_at(w, i as int, k);
                        lemma_no_match_add(flats(w.take(i as int), k), flat(w[i as int].children, k), key);
                    }
//@ after let value = child.remove(key, on_underfull);
                        let ghost w1 = w.update(i as int, cur(child));
                        let ghost t1 = on_underfull.slots@;
                        proof {
                            if value is None {
                                lemma_flats_update(w, w1, i as int, k);
                                lemma_flats_at(w1, i as int, k);
                                assert(w1.take(i as int) =~= w.take(i as int));
                            }
                        }
//@ after let child = children.swap_remove(i);
                                let ghost x0 = child;
//@ after on_underfull.call($x);
                                proof {
                                    let y = on_underfull.slots@[k as int]->Some_0;
                                    assert(on_underfull.slots@ =~= t1.update(k as int, Some(y)));
                                    assert(same_children(x0.node.children, y, k));
                                    assert(children.children@ =~= w1.update(i as int, w1.last()).drop_last());
                                    lemma_removed_under::<B, Key, Value, Q>(value, w, w1, i as int, k, a, key, s0, t1, y);
                                }
//@ before let nb = $x;
                            proof {
                                if clen(w1[i as int].children, k) >= a.min_children {
                                    assert(children.children@ =~= w1);
                                    lemma_removed_kept::<B, Key, Value, Q>(value, w, w1, i as int, k, a, key, s0, t1);
                                }
                                assert(removed_child::<B, Key, Value, Q>(value, w, children.children@, k, a, key, s0, on_underfull.slots@));
                            }
                            let ghost wf = children.children@;
//@ after let nb = $x;
                            proof { assert(exists|s: Seq<B>| bounds_of(wf, s) && B::up(nb) == #[trigger] B::up_all(s)); }
//@ loopend 0
                    proof {
                        let w1 = children.children@;
                        assert(w1 =~= w.update(i as int, w1[i as int]));
                        lemma_flats_update(w, w1, i as int, k);
                        lemma_flats_at(w1, i as int, k);
                        assert(w1.take(i as int) =~= w.take(i as int));
                        lemma_no_match_add(flats(w1.take(i as int), k), flat(w1[i as int].children, k), key);
                        assert forall|j: int| 0 <= j < n implies child_ok::<B, Key, Value>(#[trigger] w1[j], k, a) by { if j != i { assert(child_ok::<B, Key, Value>(w[j], k, a)); } }
                        if ix == n { assert(w1.take(ix as int) =~= w1); }
                    }
//@ afterloop 0
                let ghost wl = children.children@;
//@ after self.node.bounds = nb;
                proof {
                    let s = choose|s: Seq<B>| bounds_of(wl, s) && B::up(nb) == #[trigger] B::up_all(s);
                    lemma_good_union::<B, Key, Value>(*self.node, l, a, s);
                }
//@ rewrite proof { none_left } ==> proof { lemma_flats_good::<B, Key, Value>(n0, *self.node, l, a); }
//@ closure 0 | child: NodeRef<'_, B, Key, Value> | -> (r: B)
    ensures child.bounds_spec(&r)
//@ closure 1 | e: &(Key, Value) | -> (r: bool)
    ensures r == matches(e.0, key)
//@ closure 2 | e: &(Key, Value) | -> (r: B)
    requires e.0.bounds_req()
    ensures Key::bdlaw() ==> e.0.bounds_spec(&r)
//@ before self.node.bounds = union_all_map($x);
                    let ghost v1 = children@;
                    proof {
                        assert forall|j: int| 0 <= j < v1.len() implies (#[trigger] v1[j]).0.bounds_req() by { assert(leaf(n0.children)@[j].0.bounds_req()); assert(leaf(n0.children)@.last().0.bounds_req()); }
                    }
//@ after self.node.bounds = union_all_map($x);
                    proof {
                        let n1 = *self.node;
                        let s = choose|s: Seq<B>| entry_bounds_of::<B, Key, Value>(v1, s) && B::up(n1.bounds) == #[trigger] B::up_all(s);
                        lemma_good_leaf_union::<B, Key, Value>(n1, a, s);
                        lemma_swap_remove(leaf(n0.children)@, i as int);
                        assert(bag(n1.children, 0).add(obag(s0, 0)) =~= bag(n1.children, 0));
                        assert(taken(value, leaf(n0.children)@, bag(n1.children, 0).add(obag(s0, 0)), key));
                    }
//@ fn NodeContainer::remove
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
attr #[verifier::rlimit(60)]
    requires
        cfg(old(self).alloc), law::<B, Key>(), borrow_law::<B, Key, Q>(), hit_law::<B, Q>(key), key.bounds_req(),
        good::<B, Key, Value>(old(self).node, old(self).level as nat, old(self).alloc), 0 < old(self).level ==> clen(old(self).node.children, old(self).level as nat) >= 2,
    ensures
        final(self).alloc == old(self).alloc, good::<B, Key, Value>(final(self).node, final(self).level as nat, final(self).alloc),
        0 < final(self).level ==> clen(final(self).node.children, final(self).level as nat) >= 2,
        res is None ==> no_match(flat(old(self).node.children, old(self).level as nat), key)
            && flat(final(self).node.children, final(self).level as nat) == flat(old(self).node.children, old(self).level as nat),
        res is Some ==> taken(res->Some_0, flat(old(self).node.children, old(self).level as nat), bag(final(self).node.children, final(self).level as nat), key),
//@ rewrite let mut reinsert_entries: Box<[Option<NodeChildren<B, Key, Value>>]> = std::iter::repeat_with(|| None).take($n).collect(); ==> let mut reinsert_entries: Orphans<B, Key, Value> = Orphans::none($n);
//@ rewrite reinsert_entries[$i] = $e; ==> { let x = $e; self.slots.set($i, x); proof { assert(c0.leaks(x->Some_0)); } }
//@ lift if let Some(value) = self.borrow_mut().remove(key, &mut |$c:id| { $body }) { ==> let ghost s0 = reinsert_entries.slots@; let taken_value = self.borrow_mut().remove(key, &mut reinsert_entries); if let Some(value) = taken_value {
impl<B, Key, Value> Orphans<B, Key, Value> {
    /// the closure that NodeContainer::remove passes to NodeRefMut::remove
    pub fn call(&mut self, $c: NodeChildrenContainer<B, Key, Value>)
        requires $c.wf(), $c.lv() < old(self).slots@.len(), old(self).slots@[$c.lv() as int] is None
        ensures
            exists|x: NodeChildren<B, Key, Value>| final(self).slots@ == old(self).slots@.update($c.lv() as int, Some(x)) && #[trigger] $c.leaks(x)
    {
        let ghost c0 = $c;
        $body
    }
}
//@ rewrite while self.try_unbranch() {} ==> loop { let ghost m0 = *self; proof { lemma_fits::<B, Key, Value>(m0.node.children, m0.level as nat, a); } if !self.try_unbranch() { proof { lemma_same_good::<B, Key, Value>(m0.node, self.node, m0.level as nat, a); } break; } proof { lemma_only_child::<B, Key, Value>(m0.node, m0.level as nat, a); } }
//@ rewrite for (level, entries) in reinsert_entries.iter_mut().enumerate() { ==> let n = reinsert_entries.slots.len(); let mut ix: usize = 0; while ix < n { let level = ix; ix += 1; let entries = reinsert_entries.at(level);
//@ forloop 2 entry_it
//@ forloop 3 entry_it
//@ start
        let ghost n0 = self.node;
        let ghost a = self.alloc;
        let ghost l = self.level as nat;
//@ beforeloop 0
            let ghost n1 = self.node;
            let ghost t = reinsert_entries.slots@;
//@ loop 0
                invariant
                    cfg(a), self.alloc == a, good::<B, Key, Value>(self.node, self.level as nat, a), bag(self.node.children, self.level as nat) == bag(n1.children, l),
                    self.level > 0 ==> clen(self.node.children, self.level as nat) >= 1, self.level <= l,
                    self.level == l || a.min_children == 1 || (self.level == l - 1 && clen(self.node.children, self.level as nat) >= a.min_children),
                ensures self.level == 0 || clen(self.node.children, self.level as nat) >= 2
                decreases self.level
//@ loop 1
                invariant
                    cfg(a), law::<B, Key>(), n == l, n == t.len(), ix <= n, self.alloc == a, good::<B, Key, Value>(self.node, self.level as nat, a),
                    self.level == 0 || clen(self.node.children, self.level as nat) >= 2, self.level + 1 >= l || a.min_children == 1,
                    bag(self.node.children, self.level as nat) == bag(n1.children, l).add(obag(t, ix as nat)),
                    reinsert_entries.slots@.len() == n, forall|j: int| ix <= j < n ==> #[trigger] reinsert_entries.slots@[j] == t[j],
                    orphans_ok::<B, Key, Value>(t, l, a),
                decreases n - ix
//@ loopstart 1
                let ghost b0 = bag(self.node.children, self.level as nat);
                let ghost x = t[ix as int];
//@ before match entries { $x }
                    let ghost rest0 = bag(x->Some_0, level as nat);
//@ loop 2
                        invariant
                            cfg(a), law::<B, Key>(), level < l, level > 0, self.alloc == a, good::<B, Key, Value>(self.node, self.level as nat, a),
                            self.level == 0 || clen(self.node.children, self.level as nat) >= 2, self.level + 1 >= l || a.min_children == 1,
                            cs == entry_it.children@, k == level - 1, entry_it.wf(), entry_it.alloc == a, entry_it.level@ == level, entry_it.children@.len() < a.min_children,
                            forall|j: int| 0 <= j < entry_it.children@.len() ==> child_ok::<B, Key, Value>(#[trigger] entry_it.children@[j], (level - 1) as nat, a),
                            bag(self.node.children, self.level as nat).add(bags(entry_it.children@, (level - 1) as nat)) == b0.add(rest0),
                        ensures entry_it.children@.len() == 0
                        decreases entry_it.children@.len()
//@ beforeloop 2
                            let ghost mut cs = entry_it.children@;
                            let ghost k = (level - 1) as nat;
//@ loopstart 2
                                let ghost c0 = cs;
                                let ghost b1 = bag(self.node.children, self.level as nat);
                                proof {
                                    lemma_first_child(c0, k);
                                    assert(child_ok::<B, Key, Value>(c0[0], k, a));
                                    cs = entry_it.children@;
                                    assert forall|j: int| 0 <= j < cs.len() implies child_ok::<B, Key, Value>(#[trigger] cs[j], k, a) by { assert(child_ok::<B, Key, Value>(c0[j + 1], k, a)); }
                                }
//@ loopend 2
                                proof { assert(bag(self.node.children, self.level as nat).add(bags(cs, k)) =~= b1.add(bags(c0, k))); }
//@ afterloop 2
                            proof { assert(entry_it.children@ =~= Seq::empty()); lemma_bags_none::<B, Key, Value>(k); }
//@ loop 3
                        invariant
                            cfg(a), law::<B, Key>(), level < l, level == 0, self.alloc == a, good::<B, Key, Value>(self.node, self.level as nat, a),
                            self.level == 0 || clen(self.node.children, self.level as nat) >= 2, self.level + 1 >= l || a.min_children == 1,
                            cs == entry_it@, entry_it.wf(), entry_it@.len() < a.min_children,
                            forall|j: int| 0 <= j < entry_it@.len() ==> (#[trigger] entry_it@[j]).0.bounds_req(),
                            bag(self.node.children, self.level as nat).add(entry_it@.to_multiset()) == b0.add(rest0),
                        ensures entry_it@.len() == 0
                        decreases entry_it@.len()
//@ beforeloop 3
                            let ghost mut cs = entry_it@;
//@ loopstart 3
                                let ghost c0 = cs;
                                let ghost b1 = bag(self.node.children, self.level as nat);
                                proof {
                                    lemma_first_entry(c0);
                                    assert(c0[0].0.bounds_req());
                                    cs = entry_it@;
                                    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).0.bounds_req() by { assert(c0[j + 1].0.bounds_req()); }
                                }
//@ loopend 3
                                proof { assert(bag(self.node.children, self.level as nat).add(cs.to_multiset()) =~= b1.add(c0.to_multiset())); }
//@ afterloop 3
                            proof { assert(entry_it@ =~= Seq::empty()); lemma_no_entries::<Key, Value>(); }
//@ after match entries { $x }
                    proof { assert(bag(self.node.children, self.level as nat) =~= b0.add(rest0)); assert(x is Some); }
//@ loopend 1
                proof {
                    assert(obag(t, ix as nat) == obag(t, level as nat).add(orphan_bag(t[level as int], level as nat)));
                    assert(bag(self.node.children, self.level as nat) =~= bag(n1.children, l).add(obag(t, ix as nat)));
                }
//@ fn NodeContainer::insert_entry
    requires
        cfg(old(self).alloc), law::<B, Key>(), good::<B, Key, Value>(old(self).node, old(self).level as nat, old(self).alloc),
        elevel(entry) <= old(self).level, entry_ok::<B, Key, Value>(entry, old(self).alloc), elevel(entry) < old(self).level ==> clen(old(self).node.children, old(self).level as nat) >= 1,
    ensures
        final(self).alloc == old(self).alloc, good::<B, Key, Value>(final(self).node, final(self).level as nat, final(self).alloc),
        bag(final(self).node.children, final(self).level as nat) == bag(old(self).node.children, old(self).level as nat).add(ebag(entry)),
        final(self).level >= old(self).level, final(self).level == old(self).level ==> clen(final(self).node.children, final(self).level as nat) >= clen(old(self).node.children, old(self).level as nat),
        final(self).level > old(self).level ==> clen(final(self).node.children, final(self).level as nat) == 2,
        clen(final(self).node.children, final(self).level as nat) >= 1,
//@ fn NodeContainer::insert
    requires
        cfg(old(self).alloc), law::<B, Key>(), good::<B, Key, Value>(old(self).node, old(self).level as nat, old(self).alloc),
        key.bounds_req(), 0 < old(self).level ==> clen(old(self).node.children, old(self).level as nat) >= 2,
    ensures
        final(self).alloc == old(self).alloc, good::<B, Key, Value>(final(self).node, final(self).level as nat, final(self).alloc),
        bag(final(self).node.children, final(self).level as nat) == bag(old(self).node.children, old(self).level as nat).insert((key, value)),
        0 < final(self).level ==> clen(final(self).node.children, final(self).level as nat) >= 2,
//@ tail
        proof { assert(bag(old(self).node.children, old(self).level as nat).insert((key, value)) =~= bag(old(self).node.children, old(self).level as nat).add(Multiset::singleton((key, value)))); }
//@ fn NodeContainer::branch
    requires
        cfg(old(self).alloc), law::<B, Key>(), child_ok::<B, Key, Value>(old(self).node, old(self).level as nat, old(self).alloc),
        sibling.alloc == old(self).alloc, sibling.level == old(self).level, child_ok::<B, Key, Value>(sibling.node, sibling.level as nat, sibling.alloc),
    ensures
        final(self).alloc == old(self).alloc, final(self).level == old(self).level + 1, good::<B, Key, Value>(final(self).node, final(self).level as nat, final(self).alloc),
        bag(final(self).node.children, final(self).level as nat) == bag(old(self).node.children, old(self).level as nat).add(bag(sibling.node.children, sibling.level as nat)),
        clen(final(self).node.children, final(self).level as nat) == 2,
//@ start
        let ghost n0 = self.node;
        let ghost l = self.level as nat;
        let ghost a = self.alloc;
        let ghost m0 = sibling.node;
//@ after level_up($x);
        proof {
            let v = inner(self.node.children)@;
            assert(v =~= seq![n0, m0]);
            assert(seq![n0, m0] =~= Seq::<Node<B, Key, Value>>::empty().push(n0).push(m0));
            lemma_flats_push(Seq::<Node<B, Key, Value>>::empty(), n0, l);
            lemma_flats_push(Seq::<Node<B, Key, Value>>::empty().push(n0), m0, l);
            lemma_kub_empty::<B, Key, Value>();
            assert(bag(self.node.children, l + 1) =~= bag(n0.children, l).add(bag(m0.children, l)));
            lemma_kub_add::<B, Key, Value>(bag(n0.children, l), bag(m0.children, l));
            assert forall|i: int| 0 <= i < v.len() implies child_ok::<B, Key, Value>(#[trigger] v[i], l, a) by {}
        }
//@ rewrite ptr::read(&self.node) ==> ptr_read(&mut self.node)
//@ rewrite ptr::write(&mut self.node, $n) ==> ptr_write(&mut self.node, $n)
//@ rewrite self.level += 1; ==> level_up(&mut self.level);
//@ fn NodeContainer::try_unbranch
    requires
        fits(old(self).node.children, old(self).level as nat, old(self).alloc.children.cap as nat),
    ensures
        res == (old(self).level > 0 && clen(old(self).node.children, old(self).level as nat) == 1),
        !res ==> final(self).alloc == old(self).alloc && final(self).level == old(self).level && eqv(old(self).node, final(self).node, old(self).level as nat),
        res ==> *final(self) == (NodeContainer { alloc: old(self).alloc, level: (old(self).level - 1) as usize, node: inner(old(self).node.children)@[0] }),
//@ rewrite *self = new_root; ==> self.drop(); *self = new_root;
//@ text
/// What NodeContainer::remove collects: the children of the underfull node that was removed at each level
/// (in the source a boxed slice and a closure over it).
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(Key)]
#[verifier::reject_recursive_types(Value)]
pub struct Orphans<B, Key, Value> { pub slots: Vec<Option<NodeChildren<B, Key, Value>>> }
impl<B, Key, Value> Orphans<B, Key, Value> {
    #[verifier::external_body]
    pub fn none(n: usize) -> (r: Self)
        ensures r.slots@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r.slots@[i]) is None
    { unimplemented!() }
    pub fn at(&mut self, i: usize) -> (r: &mut Option<NodeChildren<B, Key, Value>>)
        requires i < old(self).slots@.len()
        ensures *r == old(self).slots@[i as int], final(self).slots@ == old(self).slots@.update(i as int, *final(r))
    { &mut self.slots[i] }
}
impl<B, Key, Value> NodeChildrenContainer<B, Key, Value> {
    pub open spec fn lv(&self) -> nat { match *self { NodeChildrenContainer::Inner(c) => c.level@ as nat, NodeChildrenContainer::Leaf(_) => 0 } }
    pub open spec fn leaks(&self, x: NodeChildren<B, Key, Value>) -> bool {
        match *self { NodeChildrenContainer::Inner(c) => is_inner(x) && inner(x) == c.children, NodeChildrenContainer::Leaf(c) => is_leaf(x) && leaf(x) == c.data }
    }
}
pub open spec fn no_orphans<B, K, V>(s: Seq<Option<NodeChildren<B, K, V>>>, l: nat) -> bool {
    s.len() >= l && forall|i: int| 0 <= i < l ==> (#[trigger] s[i]) is None
}
pub open spec fn orphan_bag<B, K, V>(o: Option<NodeChildren<B, K, V>>, l: nat) -> Entries<K, V> { match o { Some(c) => bag(c, l), None => Multiset::empty() } }
/// the entries in the slots below l
pub open spec fn obag<B, K, V>(s: Seq<Option<NodeChildren<B, K, V>>>, l: nat) -> Entries<K, V>
    decreases l
{
    if l == 0 { Multiset::empty() } else { obag(s, (l - 1) as nat).add(orphan_bag(s[l - 1], (l - 1) as nat)) }
}
pub open spec fn orphans_ok<B: Bounds, K: Bounded<B>, V>(s: Seq<Option<NodeChildren<B, K, V>>>, l: nat, a: Alloc) -> bool {
    s.len() >= l && forall|i: int| 0 <= i < l && (#[trigger] s[i]) is Some ==> cgood::<B, K, V>(s[i]->Some_0, i as nat, a) && clen(s[i]->Some_0, i as nat) < a.min_children
}
/// The first match of q in s, with value v, is gone; t is what is left.
pub open spec fn taken<K: Borrow<Q>, V, Q: PartialEq + ?Sized>(v: V, s: Seq<(K, V)>, t: Entries<K, V>, q: &Q) -> bool {
    exists|i: int| #[trigger] first_match(s, q, i) && v == s[i].1 && s.to_multiset() == t.insert(s[i])
}
/// The slots s are now t, where only those below l differ
pub open spec fn removed<B: Bounds, K: Bounded<B> + Borrow<Q>, V, Q: PartialEq + ?Sized>(
    res: Option<V>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat, a: Alloc, q: &Q, s: Seq<Option<NodeChildren<B, K, V>>>, t: Seq<Option<NodeChildren<B, K, V>>>,
) -> bool {
    &&& good::<B, K, V>(n1, l, a)
    &&& res is None ==> no_match(flat(n0.children, l), q) && flat(n1.children, l) == flat(n0.children, l) && clen(n1.children, l) == clen(n0.children, l) && s == t
    &&& res is Some ==> clen(n1.children, l) >= clen(n0.children, l) - 1 && t.len() == s.len() && (forall|i: int| l <= i < s.len() ==> t[i] == s[i]) && orphans_ok::<B, K, V>(t, l, a)
        && taken(res->Some_0, flat(n0.children, l), bag(n1.children, l).add(obag(t, l)), q)
}
/// The same for the children v of a node, which become w.
pub open spec fn removed_child<B: Bounds, K: Bounded<B> + Borrow<Q>, V, Q: PartialEq + ?Sized>(
    x: V, v: Seq<Node<B, K, V>>, w: Seq<Node<B, K, V>>, k: nat, a: Alloc, q: &Q, s: Seq<Option<NodeChildren<B, K, V>>>, t: Seq<Option<NodeChildren<B, K, V>>>,
) -> bool {
    &&& w.len() >= v.len() - 1 && t.len() == s.len() && (forall|i: int| k < i < s.len() ==> t[i] == s[i]) && orphans_ok::<B, K, V>(t, k + 1, a)
    &&& forall|j: int| 0 <= j < w.len() ==> child_ok::<B, K, V>(#[trigger] w[j], k, a)
    &&& taken(x, flats(v, k), bags(w, k).add(obag(t, k + 1)), q)
}
/// The bounds of q intersect all bounds that contain them (boxes: min <= max).
pub open spec fn hit_law<B: Bounds, Q: Bounded<B> + ?Sized>(q: &Q) -> bool {
    forall|b: B, x: B| #[trigger] q.bounds_spec(&b) && #[trigger] <B as Contains<B>>::contains_spec(&x, &b) ==> <B as super::intersects::Intersects<B>>::intersects_spec(&x, &b)
}
/// the same children but for their representation
pub open spec fn same_children<B, K, V>(c: NodeChildren<B, K, V>, d: NodeChildren<B, K, V>, l: nat) -> bool {
    kind(d, l) && (l == 0 ==> leaf(d) == leaf(c)) && (l > 0 ==> inner(d) == inner(c))
}
/// The bounds of the entries of a leaf
pub open spec fn entry_bounds_of<B: Bounds, K: Bounded<B>, V>(v: Seq<(K, V)>, s: Seq<B>) -> bool {
    s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> v[i].0.bounds_spec(#[trigger] &s[i])
}
pub proof fn lemma_good_leaf_union<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, a: Alloc, s: Seq<B>)
    requires
        law::<B, K>(), kind(n.children, 0), leaf(n.children).cap() == a.children.cap,
        forall|i: int| 0 <= i < leaf(n.children)@.len() ==> (#[trigger] leaf(n.children)@[i]).0.bounds_req(),
        entry_bounds_of::<B, K, V>(leaf(n.children)@, s), B::up(n.bounds) == B::up_all(s),
    ensures good::<B, K, V>(n, 0, a)
{
    let v = leaf(n.children)@;
    assert forall|x: B| B::up(n.bounds).contains(x) == kub::<B, K, V>(v.to_multiset()).contains(x) by {
        lemma_kub_leaf::<B, K, V>(v, x);
        assert forall|i: int| 0 <= i < v.len() implies ub::<B, K>(&(#[trigger] v[i]).0) == B::up(s[i]) by { assert(v[i].0.bounds_spec(&s[i])); lemma_ub::<B, K>(&v[i].0, s[i]); }
        if B::up(n.bounds).contains(x) { assert forall|i: int| 0 <= i < v.len() implies ub::<B, K>(&(#[trigger] v[i]).0).contains(x) by { assert(B::up(s[i]).contains(x)); } }
        if kub::<B, K, V>(v.to_multiset()).contains(x) { assert forall|i: int| 0 <= i < s.len() implies B::up(#[trigger] s[i]).contains(x) by { assert(ub::<B, K>(&v[i].0).contains(x)); } }
    }
    assert(B::up(n.bounds) =~= kub::<B, K, V>(bag(n.children, 0)));
}
pub proof fn lemma_position<'a, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(r: Option<usize>, it: slice::Iter<'a, (K, V)>, s: Seq<(K, V)>, q: &Q)
    requires
        it.remaining() == s.as_ref(),
        r is None ==> forall|i: int| 0 <= i < it.remaining().len() ==> !matches((#[trigger] it.remaining()[i]).0, q),
        r is Some ==> r->Some_0 < it.remaining().len() && matches(it.remaining()[r->Some_0 as int].0, q)
            && forall|j: int| 0 <= j < r->Some_0 ==> !matches((#[trigger] it.remaining()[j]).0, q),
    ensures
        r is None ==> no_match(s, q),
        r is Some ==> first_match(s, q, r->Some_0 as int)
{
    if r is None {
        assert forall|i: int| 0 <= i < s.len() implies !matches((#[trigger] s[i]).0, q) by { assert(*it.remaining()[i] == s[i]); }
    } else {
        let i = r->Some_0 as int;
        assert(*it.remaining()[i] == s[i]);
        assert forall|j: int| 0 <= j < i implies !matches((#[trigger] s.take(i)[j]).0, q) by { assert(*it.remaining()[j] == s[j]); }
    }
}
/// As good with the same entries and as good children.
pub proof fn lemma_flats_good<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat, a: Alloc)
    requires
        l > 0, good::<B, K, V>(n0, l, a), n0.bounds == n1.bounds, kind(n1.children, l), inner(n1.children).cap() == a.children.cap,
        inner(n1.children)@.len() == inner(n0.children)@.len(), flats(inner(n1.children)@, (l - 1) as nat) == flats(inner(n0.children)@, (l - 1) as nat),
        forall|j: int| 0 <= j < inner(n1.children)@.len() ==> child_ok::<B, K, V>(#[trigger] inner(n1.children)@[j], (l - 1) as nat, a),
    ensures good::<B, K, V>(n1, l, a), flat(n1.children, l) == flat(n0.children, l), clen(n1.children, l) == clen(n0.children, l)
{
}
pub proof fn lemma_first_child<B, K, V>(s: Seq<Node<B, K, V>>, l: nat)
    requires s.len() > 0
    ensures bags(s, l) == bag(s[0].children, l).add(bags(s.drop_first(), l))
{
    lemma_flats_at(s, 0, l);
    lemma_bags_none::<B, K, V>(l);
    assert(s.take(0) =~= Seq::empty());
    assert(s.skip(1) =~= s.drop_first());
    assert(bags(s, l) =~= bag(s[0].children, l).add(bags(s.drop_first(), l)));
}
pub proof fn lemma_first_entry<K, V>(s: Seq<(K, V)>)
    requires s.len() > 0
    ensures s.to_multiset() == s.drop_first().to_multiset().insert(s[0])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.remove(0) =~= s.drop_first());
    assert(s.drop_first().to_multiset().insert(s[0]) =~= s.to_multiset());
}
pub proof fn lemma_no_entries<K, V>()
    ensures Seq::<(K, V)>::empty().to_multiset() == Multiset::<(K, V)>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(Seq::<(K, V)>::empty().to_multiset() =~= Multiset::<(K, V)>::empty());
}
pub proof fn lemma_bags_none<B, K, V>(l: nat)
    ensures bags(Seq::<Node<B, K, V>>::empty(), l) == Multiset::<(K, V)>::empty()
{
    lemma_no_entries::<K, V>();
    assert(flats(Seq::<Node<B, K, V>>::empty(), l) =~= Seq::empty());
}
/// the only child of a root
pub proof fn lemma_only_child<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc)
    requires l > 0, good::<B, K, V>(n, l, a), clen(n.children, l) == 1
    ensures
        child_ok::<B, K, V>(inner(n.children)@[0], (l - 1) as nat, a), bag(inner(n.children)@[0].children, (l - 1) as nat) == bag(n.children, l),
{
    let v = inner(n.children)@;
    lemma_flats_push(Seq::empty(), v[0], (l - 1) as nat);
    assert(v =~= Seq::empty().push(v[0]));
    assert(child_ok::<B, K, V>(v[0], (l - 1) as nat, a));
    lemma_kub_empty::<B, K, V>();
    assert(bag(n.children, l) =~= bag(v[0].children, (l - 1) as nat));
}
pub proof fn lemma_taken_at<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(x: V, w: Seq<Node<B, K, V>>, i: int, l: nat, q: &Q, m: Entries<K, V>)
    requires 0 <= i < w.len(), no_match(flats(w.take(i), l), q), taken(x, flat(w[i].children, l), m, q)
    ensures taken(x, flats(w, l), bags(w.take(i), l).add(bags(w.skip(i + 1), l)).add(m), q)
{
    let fc = flat(w[i].children, l);
    let j = choose|j: int| #[trigger] first_match(fc, q, j) && x == fc[j].1 && fc.to_multiset() == m.insert(fc[j]);
    let a = flats(w.take(i), l);
    let c = flats(w.skip(i + 1), l);
    lemma_flats_at(w, i, l);
    lemma_first_match(a, fc, c, q, j);
    let m1 = bags(w.take(i), l).add(bags(w.skip(i + 1), l)).add(m);
    assert(flats(w, l).to_multiset() =~= m1.insert(fc[j]));
    assert(first_match(flats(w, l), q, a.len() + j));
}
pub proof fn lemma_obag_same<B, K, V>(s: Seq<Option<NodeChildren<B, K, V>>>, t: Seq<Option<NodeChildren<B, K, V>>>, l: nat)
    requires s.len() >= l, t.len() >= l, forall|i: int| 0 <= i < l ==> s[i] == t[i]
    ensures obag(s, l) == obag(t, l)
    decreases l
{
    if l > 0 { lemma_obag_same(s, t, (l - 1) as nat); }
}
/// Child i lost an entry and is kept.
pub proof fn lemma_removed_kept<B: Bounds + Clone, K: Bounded<B> + Borrow<Q>, V, Q: PartialEq + ?Sized>(
    x: V, w: Seq<Node<B, K, V>>, w1: Seq<Node<B, K, V>>, i: int, k: nat, a: Alloc, q: &Q, s0: Seq<Option<NodeChildren<B, K, V>>>, t1: Seq<Option<NodeChildren<B, K, V>>>,
)
    requires
        0 <= i < w.len(), w1 == w.update(i, w1[i]), no_orphans(s0, k + 1), no_match(flats(w.take(i), k), q),
        forall|j: int| 0 <= j < w.len() ==> child_ok::<B, K, V>(#[trigger] w[j], k, a),
        removed::<B, K, V, Q>(Some(x), w[i], w1[i], k, a, q, s0, t1), clen(w1[i].children, k) >= a.min_children,
    ensures removed_child::<B, K, V, Q>(x, w, w1, k, a, q, s0, t1)
{
    assert forall|j: int| 0 <= j < w1.len() implies child_ok::<B, K, V>(#[trigger] w1[j], k, a) by { if j != i { assert(child_ok::<B, K, V>(w[j], k, a)); } }
    assert(s0[k as int] is None);
    let m = bag(w1[i].children, k).add(obag(t1, k));
    lemma_taken_at(x, w, i, k, q, m);
    lemma_flats_update(w, w1, i, k);
    assert(obag(t1, k + 1) =~= obag(t1, k));
    assert(bags(w1, k).add(obag(t1, k + 1)) =~= bags(w.take(i), k).add(bags(w.skip(i + 1), k)).add(m));
}
/// Child i lost an entry, has too few children and is taken out; its children y are put aside.
pub proof fn lemma_removed_under<B: Bounds + Clone, K: Bounded<B> + Borrow<Q>, V, Q: PartialEq + ?Sized>(
    x: V, w: Seq<Node<B, K, V>>, w1: Seq<Node<B, K, V>>, i: int, k: nat, a: Alloc, q: &Q, s0: Seq<Option<NodeChildren<B, K, V>>>, t1: Seq<Option<NodeChildren<B, K, V>>>,
    y: NodeChildren<B, K, V>,
)
    requires
        0 <= i < w.len(), w1 == w.update(i, w1[i]), no_orphans(s0, k + 1), no_match(flats(w.take(i), k), q),
        forall|j: int| 0 <= j < w.len() ==> child_ok::<B, K, V>(#[trigger] w[j], k, a),
        removed::<B, K, V, Q>(Some(x), w[i], w1[i], k, a, q, s0, t1), clen(w1[i].children, k) < a.min_children,
        same_children(w1[i].children, y, k),
    ensures removed_child::<B, K, V, Q>(x, w, w1.update(i, w1.last()).drop_last(), k, a, q, s0, t1.update(k as int, Some(y)))
{
    let w2 = w1.update(i, w1.last()).drop_last();
    let t2 = t1.update(k as int, Some(y));
    assert forall|j: int| 0 <= j < w2.len() implies child_ok::<B, K, V>(#[trigger] w2[j], k, a) by {
        assert(child_ok::<B, K, V>(w[j], k, a));
        assert(child_ok::<B, K, V>(w[w.len() - 1], k, a));
        if j == i { assert(w2[j] == w1[w.len() - 1]); }
    }
    let m = bag(w1[i].children, k).add(obag(t1, k));
    lemma_taken_at(x, w, i, k, q, m);
    lemma_flats_update(w, w1, i, k);
    lemma_swap_remove(w1, i);
    lemma_bags_push(w2, w1, w1[i], k);
    assert(bag(y, k) == bag(w1[i].children, k));
    lemma_obag_same(t1, t2, k);
    assert(obag(t2, k + 1) == obag(t1, k).add(bag(y, k)));
    assert(bags(w2, k).add(obag(t2, k + 1)) =~= bags(w.take(i), k).add(bags(w.skip(i + 1), k)).add(m)) by {
        assert(bags(w1, k) == bags(w2, k).add(bag(w1[i].children, k)));
        assert forall|e: (K, V)| #![trigger bags(w2, k).add(obag(t2, k + 1)).count(e)] bags(w2, k).add(obag(t2, k + 1)).count(e) == bags(w.take(i), k).add(bags(w.skip(i + 1), k)).add(m).count(e) by {
            assert(bags(w1, k).count(e) == bags(w2, k).count(e) + bag(w1[i].children, k).count(e));
        }
    }
}
pub proof fn lemma_prune_hit<B: Bounds + Clone, K: Borrow<Q> + Bounded<B>, V, Q: Bounded<B> + PartialEq + ?Sized>(n: Node<B, K, V>, l: nat, q: &Q, b: B, nb: B)
    requires law::<B, K>(), borrow_law::<B, K, Q>(), hit_law::<B, Q>(q), B::up(nb) == kub::<B, K, V>(bag(n.children, l)), q.bounds_spec(&b)
    ensures !<B as super::intersects::Intersects<B>>::intersects_spec(&nb, &b) ==> no_match(flat(n.children, l), q)
{
    lemma_prune_with::<B, K, V, Q>(n, l, q, b, nb);
}
impl<'a, B, Key, Value> NodeRef<'a, B, Key, Value> {
    pub open spec fn wf(&self) -> bool { exists|cap: nat| #[trigger] fits(self.node.children, self.level as nat, cap) }
}
/// the nodes s as children of a node at level l
pub open spec fn child_refs<'a, B, K, V>(s: Seq<Node<B, K, V>>, l: usize) -> Seq<NodeRef<'a, B, K, V>> {
    Seq::new(s.len(), |i: int| NodeRef { level: (l - 1) as usize, node: &s[i] })
}
impl<'a, B, Key, Value> vstd::std_specs::iter::IteratorSpecImpl for InnerNodeChildrenIter<'a, B, Key, Value> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.children) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<NodeRef<'a, B, Key, Value>> {
        Seq::new(IteratorSpec::remaining(&self.children).len(), |i: int| NodeRef { level: (self.level@ - 1) as usize, node: IteratorSpec::remaining(&self.children)[i] })
    }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.children) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.children) }
    open spec fn peek(&self, i: int) -> Option<NodeRef<'a, B, Key, Value>> { None }
}

/// every bounds below is that of its entries
pub open spec fn tight<B: Bounds, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat) -> bool
    decreases l,
{
    &&& B::up(n.bounds) == kub::<B, K, V>(bag(n.children, l))
    &&& l > 0 ==> forall|i: int| 0 <= i < inner(n.children)@.len() ==> tight::<B, K, V>(#[trigger] inner(n.children)@[i], (l - 1) as nat)
}

// ---- lookup
pub open spec fn matches<K: Borrow<Q>, Q: PartialEq + ?Sized>(k: K, q: &Q) -> bool { k.borrow_spec().eq_spec(q) }
pub open spec fn no_match<K: Borrow<Q>, V, Q: PartialEq + ?Sized>(s: Seq<(K, V)>, q: &Q) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !matches((#[trigger] s[i]).0, q)
}
/// i is the first entry with a key equal to q
pub open spec fn first_match<K: Borrow<Q>, V, Q: PartialEq + ?Sized>(s: Seq<(K, V)>, q: &Q, i: int) -> bool {
    0 <= i < s.len() && matches(s[i].0, q) && no_match(s.take(i), q)
}
/// What lookup relies on: equal keys have equal bounds.
pub open spec fn borrow_law<B: Bounds, K: Borrow<Q> + Bounded<B>, Q: Bounded<B> + PartialEq + ?Sized>() -> bool {
    &&& Q::obeys_eq_spec() && key_law::<B, Q>()
    &&& forall|k: K, q: &Q| #[trigger] matches(k, q) ==> ub::<B, K>(&k) == ub::<B, Q>(q)
}

// ---- exclusive access
impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool { self.alloc == o.alloc && self.level == o.level && *final(self.node) == *final(o.node) }
}
impl<'a, B, Key, Value> InnerNodeChildrenRefMut<'a, B, Key, Value> {
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool { self.alloc == o.alloc && self.level == o.level && *final(self.children) == *final(o.children) }
    pub open spec fn wf(&self) -> bool { self.level@ >= 1 && self.children.wf() && self.children.cap() == self.alloc.children.cap }
}
/// res are the children of a node that was n0 and becomes n1
#[verifier::prophetic]
pub open spec fn children_of<'a, B, K, V>(res: NodeChildrenRefMut<'a, B, K, V>, n0: Node<B, K, V>, n1: Node<B, K, V>, alloc: Alloc, level: usize) -> bool {
    &&& n1.bounds == n0.bounds
    &&& match res {
        NodeChildrenRefMut::Leaf(v) => level == 0 && *v.data == leaf(n0.children) && *final(v.data) == leaf(n1.children) && is_leaf(n1.children) && v.ops == alloc.children,
        NodeChildrenRefMut::Inner(v) => level > 0 && v.level@ == level && v.alloc == alloc && *v.children == inner(n0.children) && *final(v.children) == inner(n1.children) && is_inner(n1.children),
    }
}
/// its are the nodes s, which become t
#[verifier::prophetic]
pub open spec fn child_muts<'a, B, K, V>(its: Seq<NodeRefMut<'a, B, K, V>>, s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, alloc: Alloc, level: usize) -> bool {
    its.len() == s.len() == t.len() && forall|i: int| #![trigger its[i]] #![trigger s[i]] 0 <= i < s.len() ==>
        its[i].alloc == alloc && its[i].level == (level - 1) as usize && *its[i].node == s[i] && *final(its[i].node) == t[i]
}
/// what the nodes its become
#[verifier::prophetic]
pub open spec fn finals<'a, B, K, V>(its: Seq<NodeRefMut<'a, B, K, V>>) -> Seq<Node<B, K, V>> { Seq::new(its.len(), |i: int| *final(its[i].node)) }
pub broadcast proof fn lemma_finals<'a, B, K, V>(its: Seq<NodeRefMut<'a, B, K, V>>, s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, alloc: Alloc, level: usize)
    requires #[trigger] child_muts(its, s, t, alloc, level)
    ensures t == finals(its)
{
    assert forall|i: int| 0 <= i < t.len() implies t[i] == finals(its)[i] by { assert(*final(its[i].node) == t[i]); }
    assert(t =~= finals(its));
}
impl<'a, B, Key, Value> vstd::std_specs::iter::IteratorSpecImpl for InnerNodeChildrenIterMut<'a, B, Key, Value> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.children) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<NodeRefMut<'a, B, Key, Value>> {
        Seq::new(IteratorSpec::remaining(&self.children).len(), |i: int| NodeRefMut { alloc: self.alloc, level: (self.level@ - 1) as usize, node: IteratorSpec::remaining(&self.children)[i] })
    }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.children) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.children) }
    open spec fn peek(&self, i: int) -> Option<NodeRefMut<'a, B, Key, Value>> { None }
}

/// Releasing a Node (which has no drop of its own) releases its bounds; its child vector must have been released.
pub broadcast axiom fn glue_node<B, K, V>(n: Node<B, K, V>)
    ensures #[trigger] glue_ok(n) == gone(n);
/// Keys and values release what they own.
pub broadcast axiom fn glue_entry<K, V>(e: (K, V))
    ensures #[trigger] glue_ok(e);
/// the memory of the child vector is released
pub open spec fn gone<B, K, V>(n: Node<B, K, V>) -> bool {
    (is_inner(n.children) ==> inner(n.children).dead()) && (is_leaf(n.children) ==> leaf(n.children).dead())
}

/// n1 is n0 but for values
pub open spec fn like<B, K, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat) -> bool
    decreases l,
{
    &&& n0.bounds == n1.bounds && kind(n1.children, l) && clen(n0.children, l) == clen(n1.children, l)
    &&& l == 0 ==> leaf(n0.children).cap() == leaf(n1.children).cap() && forall|i: int| 0 <= i < clen(n0.children, l) ==> (#[trigger] leaf(n0.children)@[i]).0 == leaf(n1.children)@[i].0
    &&& l > 0 ==> inner(n0.children).cap() == inner(n1.children).cap() && forall|i: int| 0 <= i < clen(n0.children, l) ==> like(#[trigger] inner(n0.children)@[i], inner(n1.children)@[i], (l - 1) as nat)
}
/// What a lookup that gives mutable access finds, and what it changes.
#[verifier::prophetic]
pub open spec fn found<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(res: Option<&mut V>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat, q: &Q) -> bool {
    &&& like(n0, n1, l)
    &&& res is None ==> no_match(flat(n0.children, l), q) && flat(n1.children, l) == flat(n0.children, l)
    &&& res is Some ==> exists|i: int| #[trigger] first_match(flat(n0.children, l), q, i) && *res->Some_0 == flat(n0.children, l)[i].1
        && flat(n1.children, l) == flat(n0.children, l).update(i, (flat(n0.children, l)[i].0, *final(res->Some_0)))
}

pub proof fn lemma_like_refl<B, K, V>(n: Node<B, K, V>, l: nat, cap: nat)
    requires fits(n.children, l, cap)
    ensures like(n, n, l)
    decreases l
{
    if l > 0 {
        assert forall|i: int| 0 <= i < clen(n.children, l) implies like(#[trigger] inner(n.children)@[i], inner(n.children)@[i], (l - 1) as nat) by {
            assert(fits(inner(n.children)@[i].children, (l - 1) as nat, cap));
            lemma_like_refl(inner(n.children)@[i], (l - 1) as nat, cap);
        }
    }
}
pub proof fn lemma_flats_same<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat)
    requires s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> flat((#[trigger] s[j]).children, l) == flat(t[j].children, l)
    ensures flats(s, l) == flats(t, l)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies flat((#[trigger] s.drop_last()[j]).children, l) == flat(t.drop_last()[j].children, l) by { assert(s[j] == s.drop_last()[j]); }
        lemma_flats_same(s.drop_last(), t.drop_last(), l);
        assert(s[s.len() - 1] == s.last());
    }
}
/// found in child k, after children without a match: found in the sequence
#[verifier::prophetic]
pub open spec fn found_seq<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(res: Option<&mut V>, s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat, q: &Q) -> bool {
    exists|i: int| #[trigger] first_match(flats(s, l), q, i) && *res->Some_0 == flats(s, l)[i].1
        && flats(t, l) == flats(s, l).update(i, (flats(s, l)[i].0, *final(res->Some_0)))
}
pub proof fn lemma_found_at<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(res: Option<&mut V>, s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, k: int, l: nat, q: &Q)
    requires
        0 <= k < s.len(), s.len() == t.len(), res is Some, no_match(flats(s.take(k), l), q), found(res, s[k], t[k], l, q),
        forall|j: int| 0 <= j < s.len() && j != k ==> flat((#[trigger] s[j]).children, l) == flat(t[j].children, l),
    ensures found_seq(res, s, t, l, q)
{
    let fc = flat(s[k].children, l);
    let i = choose|i: int| #[trigger] first_match(fc, q, i) && *res->Some_0 == fc[i].1
        && flat(t[k].children, l) == fc.update(i, (fc[i].0, *final(res->Some_0)));
    lemma_first_match(flats(s.take(k), l), fc, flats(s.skip(k + 1), l), q, i);
    lemma_flats_at(s, k, l);
    lemma_flats_at(t, k, l);
    assert forall|j: int| 0 <= j < s.take(k).len() implies flat((#[trigger] s.take(k)[j]).children, l) == flat(t.take(k)[j].children, l) by { assert(s[j] == s.take(k)[j]); }
    lemma_flats_same(s.take(k), t.take(k), l);
    assert forall|j: int| 0 <= j < s.skip(k + 1).len() implies flat((#[trigger] s.skip(k + 1)[j]).children, l) == flat(t.skip(k + 1)[j].children, l) by { assert(s[j + k + 1] == s.skip(k + 1)[j]); }
    lemma_flats_same(s.skip(k + 1), t.skip(k + 1), l);
    let a = flats(s.take(k), l);
    let c = flats(s.skip(k + 1), l);
    let v = (fc[i].0, *final(res->Some_0));
    assert(a + fc.update(i, v) + c =~= (a + fc + c).update(a.len() + i, v));
    assert(first_match(flats(s, l), q, a.len() + i));
}

/// Finding the first match in a leaf.
pub proof fn lemma_get_leaf<'a, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(r: Option<&'a (K, V)>, it0: slice::Iter<'a, (K, V)>, it: slice::Iter<'a, (K, V)>, s: Seq<(K, V)>, q: &Q)
    requires
        it0.remaining() == s.as_ref(), it.remaining().len() <= s.len(),
        r is None ==> forall|i: int| 0 <= i < s.len() ==> !matches((#[trigger] it0.remaining()[i]).0, q),
        r is Some ==> ({ let i = s.len() - it.remaining().len() - 1; 0 <= i < s.len() && it0.remaining()[i] == r->Some_0 && matches(r->Some_0.0, q)
            && forall|j: int| 0 <= j < i ==> !matches((#[trigger] it0.remaining()[j]).0, q) }),
    ensures
        r is None ==> no_match(s, q),
        r is Some ==> exists|i: int| #[trigger] first_match(s, q, i) && *r->Some_0 == s[i]
{
    if r is None {
        assert forall|i: int| 0 <= i < s.len() implies !matches((#[trigger] s[i]).0, q) by { assert(*it0.remaining()[i] == s[i]); }
    } else {
        let i = s.len() - it.remaining().len() - 1;
        assert forall|j: int| 0 <= j < i implies !matches((#[trigger] s.take(i)[j]).0, q) by { assert(*it0.remaining()[j] == s[j]); }
        assert(first_match(s, q, i));
    }
}
/// ... for mutable access
pub proof fn lemma_found_leaf<'a, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(r: Option<&'a mut (K, V)>, it: slice::IterMut<'a, (K, V)>, s: Seq<(K, V)>, q: &Q)
    requires
        it.remaining().len() == s.len(), forall|i: int| #![trigger it.remaining()[i]] 0 <= i < s.len() ==> *(it.remaining()[i]) == s[i],
        r is None ==> forall|i: int| #![trigger it.remaining()[i]] 0 <= i < s.len() ==> !matches((it.remaining()[i]).0, q) && has_resolved(it.remaining()[i]),
        r is Some ==> exists|i: int| #![trigger it.remaining()[i]] 0 <= i < s.len() && r->Some_0 == it.remaining()[i] && matches(it.remaining()[i].0, q)
            && (forall|j: int| #![trigger it.remaining()[j]] 0 <= j < i ==> !matches((it.remaining()[j]).0, q))
            && (forall|j: int| #![trigger it.remaining()[j]] 0 <= j < s.len() && j != i ==> has_resolved(it.remaining()[j])),
    ensures
        r is None ==> no_match(s, q) && fc_vec::ends(it.remaining()) == s,
        r is Some ==> exists|i: int| #[trigger] first_match(s, q, i) && *r->Some_0 == s[i] && fc_vec::ends(it.remaining()) == s.update(i, *final(r->Some_0))
{
    if r is None {
        assert forall|i: int| 0 <= i < s.len() implies !matches((#[trigger] s[i]).0, q) by { assert(*it.remaining()[i] == s[i]); }
        assert forall|i: int| 0 <= i < s.len() implies fc_vec::ends(it.remaining())[i] == s[i] by { assert(has_resolved(it.remaining()[i])); }
        assert(fc_vec::ends(it.remaining()) =~= s);
    } else {
        let i = choose|i: int| #![trigger it.remaining()[i]] 0 <= i < s.len() && r->Some_0 == it.remaining()[i] && matches(it.remaining()[i].0, q)
            && (forall|j: int| #![trigger it.remaining()[j]] 0 <= j < i ==> !matches((it.remaining()[j]).0, q))
            && (forall|j: int| #![trigger it.remaining()[j]] 0 <= j < s.len() && j != i ==> has_resolved(it.remaining()[j]));
        assert forall|j: int| 0 <= j < i implies !matches((#[trigger] s.take(i)[j]).0, q) by { assert(*it.remaining()[j] == s[j]); }
        assert(first_match(s, q, i));
        assert forall|j: int| 0 <= j < s.len() implies fc_vec::ends(it.remaining())[j] == s.update(i, *final(r->Some_0))[j] by { if j != i { assert(has_resolved(it.remaining()[j])); } }
        assert(fc_vec::ends(it.remaining()) =~= s.update(i, *final(r->Some_0)));
    }
}

/// Bounds that do not contain the key's have no equal key.
pub proof fn lemma_prune<B: Bounds + Clone, K: Borrow<Q> + Bounded<B>, V, Q: Bounded<B> + PartialEq + ?Sized>(n: Node<B, K, V>, l: nat, q: &Q, b: B)
    requires law::<B, K>(), borrow_law::<B, K, Q>(), tight::<B, K, V>(n, l), q.bounds_spec(&b)
    ensures !n.bounds.contains_spec(&b) ==> no_match(flat(n.children, l), q)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = flat(n.children, l);
    if exists|i: int| 0 <= i < s.len() && matches((#[trigger] s[i]).0, q) {
        let i = choose|i: int| 0 <= i < s.len() && matches((#[trigger] s[i]).0, q);
        assert(s.contains(s[i]));
        assert(bag(n.children, l).count(s[i]) > 0);
        assert(B::up(n.bounds).contains(n.bounds));
        assert(ub::<B, K>(&s[i].0).contains(n.bounds));
        lemma_ub::<B, Q>(q, b);
        assert(B::up(b).contains(n.bounds));
        assert(<B as Contains<B>>::contains_spec(&n.bounds, &b));
    }
}
pub proof fn lemma_prune_all<B: Bounds + Clone, K: Borrow<Q> + Bounded<B>, V, Q: Bounded<B> + PartialEq + ?Sized>(n: Node<B, K, V>, l: nat, q: &Q)
    requires law::<B, K>(), borrow_law::<B, K, Q>(), tight::<B, K, V>(n, l)
    ensures forall|b: B| #![trigger q.bounds_spec(&b)] q.bounds_spec(&b) && !n.bounds.contains_spec(&b) ==> no_match(flat(n.children, l), q)
{
    assert forall|b: B| #![trigger q.bounds_spec(&b)] q.bounds_spec(&b) && !n.bounds.contains_spec(&b) implies no_match(flat(n.children, l), q) by {
        lemma_prune::<B, K, V, Q>(n, l, q, b);
    }
}
pub proof fn lemma_no_match_add<K: Borrow<Q>, V, Q: PartialEq + ?Sized>(a: Seq<(K, V)>, b: Seq<(K, V)>, q: &Q)
    ensures no_match(a + b, q) == (no_match(a, q) && no_match(b, q))
{
    if no_match(a + b, q) {
        assert forall|i: int| 0 <= i < a.len() implies !matches((#[trigger] a[i]).0, q) by { assert((a + b)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies !matches((#[trigger] b[i]).0, q) by { assert((a + b)[a.len() + i] == b[i]); }
    }
}
/// A first match of the middle part is one of the whole.
pub proof fn lemma_first_match<K: Borrow<Q>, V, Q: PartialEq + ?Sized>(a: Seq<(K, V)>, b: Seq<(K, V)>, c: Seq<(K, V)>, q: &Q, i: int)
    requires no_match(a, q), first_match(b, q, i)
    ensures first_match(a + b + c, q, a.len() + i), (a + b + c)[a.len() + i] == b[i]
{
    let s = a + b + c;
    assert forall|j: int| 0 <= j < a.len() + i implies !matches((#[trigger] s.take(a.len() + i)[j]).0, q) by {
        if j < a.len() { assert(s[j] == a[j]); } else { assert(s[j] == b[j - a.len()]); assert(b.take(i)[j - a.len()] == b[j - a.len()]); }
    }
}

/// The bounds a node computes are a copy of its own.
pub proof fn lemma_node_law<B: Bounds + Clone, K, V>()
    requires bounds_law::<B>()
    ensures
        key_law::<B, Node<B, K, V>>(),
        forall|n: Node<B, K, V>| #![trigger ub::<B, Node<B, K, V>>(&n)] ub::<B, Node<B, K, V>>(&n) == B::up(n.bounds),
{
    assert forall|n: Node<B, K, V>| #![trigger ub::<B, Node<B, K, V>>(&n)] ub::<B, Node<B, K, V>>(&n) == B::up(n.bounds) by {
        assert(n.bounds_spec(&n.bounds));
        assert(ub::<B, Node<B, K, V>>(&n) =~= B::up(n.bounds));
    }
}

// ---- insertion
pub open spec fn elevel<B, K, V>(e: NodeEntry<B, K, V>) -> nat { match e { NodeEntry::Inner(c) => (c.level + 1) as nat, NodeEntry::Leaf(_) => 0 } }
pub open spec fn ebag<B, K, V>(e: NodeEntry<B, K, V>) -> Entries<K, V> {
    match e { NodeEntry::Inner(c) => bag(c.node.children, c.level as nat), NodeEntry::Leaf(kv) => Multiset::singleton(kv) }
}
pub open spec fn entry_ok<B: Bounds, K: Bounded<B>, V>(e: NodeEntry<B, K, V>, a: Alloc) -> bool {
    match e {
        NodeEntry::Inner(c) => c.alloc == a && c.level < usize::MAX && child_ok::<B, K, V>(c.node, c.level as nat, a),
        NodeEntry::Leaf(kv) => kv.0.bounds_req(),
    }
}
/// n0 becomes n1, and res if it is split; eb are the new entries
pub open spec fn inserted<B: Bounds, K: Bounded<B>, V>(res: Option<NodeContainer<B, K, V>>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize, a: Alloc, eb: Entries<K, V>) -> bool {
    &&& good::<B, K, V>(n1, l as nat, a)
    &&& res is None ==> bag(n1.children, l as nat) == bag(n0.children, l as nat).add(eb) && clen(n1.children, l as nat) >= clen(n0.children, l as nat) && clen(n1.children, l as nat) >= 1
    &&& res is Some ==> {
        let c = res->Some_0;
        c.alloc == a && c.level == l && child_ok::<B, K, V>(c.node, l as nat, a) && clen(n1.children, l as nat) >= a.min_children
        && bag(n1.children, l as nat).add(bag(c.node.children, l as nat)) == bag(n0.children, l as nat).add(eb)
    }
}
/// The bounds an entry computes.
pub proof fn lemma_entry_bounds<B: Bounds + Clone, K: Bounded<B>, V>(e: NodeEntry<B, K, V>, a: Alloc, b: B)
    requires law::<B, K>(), entry_ok::<B, K, V>(e, a), e.bounds_spec(&b)
    ensures B::up(b) == kub::<B, K, V>(ebag(e))
{
    match e {
        NodeEntry::Inner(c) => {}
        NodeEntry::Leaf(kv) => { lemma_kub_one::<B, K, V>(kv); lemma_ub::<B, K>(&kv.0, b); }
    }
}
/// An inner node is good if its children are and its bounds are theirs.
pub proof fn lemma_good_inner<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc)
    requires
        l > 0, kind(n.children, l), inner(n.children).cap() == a.children.cap,
        forall|i: int| 0 <= i < inner(n.children)@.len() ==> child_ok::<B, K, V>(#[trigger] inner(n.children)@[i], (l - 1) as nat, a),
        forall|x: B| B::up(n.bounds).contains(x) == forall|i: int| 0 <= i < inner(n.children)@.len() ==> B::up((#[trigger] inner(n.children)@[i]).bounds).contains(x),
    ensures good::<B, K, V>(n, l, a)
{
    let v = inner(n.children)@;
    assert forall|x: B| B::up(n.bounds).contains(x) == kub::<B, K, V>(bag(n.children, l)).contains(x) by {
        lemma_kub_bags::<B, K, V>(v, (l - 1) as nat, x);
        assert forall|i: int| 0 <= i < v.len() implies B::up((#[trigger] v[i]).bounds) == kub::<B, K, V>(bag(v[i].children, (l - 1) as nat)) by {
            assert(child_ok::<B, K, V>(v[i], (l - 1) as nat, a));
        }
        if B::up(n.bounds).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies kub::<B, K, V>(bag((#[trigger] v[i]).children, (l - 1) as nat)).contains(x) by { assert(B::up(v[i].bounds).contains(x)); }
        }
        if kub::<B, K, V>(bag(n.children, l)).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies B::up((#[trigger] v[i]).bounds).contains(x) by { assert(kub::<B, K, V>(bag(v[i].children, (l - 1) as nat)).contains(x)); }
        }
    }
    assert(B::up(n.bounds) =~= kub::<B, K, V>(bag(n.children, l)));
}
pub proof fn lemma_good_ubs<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc)
    requires
        law::<B, K>(), l > 0, kind(n.children, l), inner(n.children).cap() == a.children.cap,
        forall|i: int| 0 <= i < inner(n.children)@.len() ==> child_ok::<B, K, V>(#[trigger] inner(n.children)@[i], (l - 1) as nat, a),
        B::up(n.bounds) == ubs::<B, Node<B, K, V>>(inner(n.children)@),
    ensures good::<B, K, V>(n, l, a)
{
    let v = inner(n.children)@;
    lemma_node_law::<B, K, V>();
    assert forall|x: B| B::up(n.bounds).contains(x) == forall|i: int| 0 <= i < v.len() ==> B::up((#[trigger] v[i]).bounds).contains(x) by {
        assert forall|i: int| 0 <= i < v.len() implies ub::<B, Node<B, K, V>>(&#[trigger] v[i]) == B::up(v[i].bounds) by {}
        if B::up(n.bounds).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies B::up((#[trigger] v[i]).bounds).contains(x) by { assert(ub::<B, Node<B, K, V>>(&v[i]).contains(x)); }
        }
        if forall|i: int| 0 <= i < v.len() ==> B::up((#[trigger] v[i]).bounds).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies ub::<B, Node<B, K, V>>(&#[trigger] v[i]).contains(x) by { assert(B::up(v[i].bounds).contains(x)); }
        }
    }
    lemma_good_inner::<B, K, V>(n, l, a);
}
/// s are the bounds of v, up to their upper sets
pub open spec fn bounds_of<B: Bounds, K, V>(v: Seq<Node<B, K, V>>, s: Seq<B>) -> bool {
    s.len() == v.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> B::up(s[i]) == B::up(v[i].bounds)
}
pub proof fn lemma_good_union<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc, s: Seq<B>)
    requires
        law::<B, K>(), l > 0, kind(n.children, l), inner(n.children).cap() == a.children.cap,
        forall|i: int| 0 <= i < inner(n.children)@.len() ==> child_ok::<B, K, V>(#[trigger] inner(n.children)@[i], (l - 1) as nat, a),
        bounds_of(inner(n.children)@, s), B::up(n.bounds) == B::up_all(s),
    ensures good::<B, K, V>(n, l, a)
{
    let v = inner(n.children)@;
    assert forall|x: B| B::up(n.bounds).contains(x) == forall|i: int| 0 <= i < v.len() ==> B::up((#[trigger] v[i]).bounds).contains(x) by {
        if B::up(n.bounds).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies B::up((#[trigger] v[i]).bounds).contains(x) by { assert(B::up(s[i]).contains(x)); }
        }
        if forall|i: int| 0 <= i < v.len() ==> B::up((#[trigger] v[i]).bounds).contains(x) {
            assert forall|i: int| 0 <= i < s.len() implies B::up(#[trigger] s[i]).contains(x) by { assert(B::up(v[i].bounds).contains(x)); }
        }
    }
    lemma_good_inner::<B, K, V>(n, l, a);
}
/// A leaf's bounds.
pub proof fn lemma_good_leaf<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, a: Alloc)
    requires
        law::<B, K>(), kind(n.children, 0), leaf(n.children).cap() == a.children.cap,
        forall|i: int| 0 <= i < leaf(n.children)@.len() ==> (#[trigger] leaf(n.children)@[i]).0.bounds_req(),
        B::up(n.bounds) == ubs::<B, (K, V)>(leaf(n.children)@),
    ensures good::<B, K, V>(n, 0, a)
{
    let v = leaf(n.children)@;
    assert forall|x: B| B::up(n.bounds).contains(x) == kub::<B, K, V>(bag(n.children, 0)).contains(x) by {
        lemma_kub_leaf::<B, K, V>(v, x);
        assert forall|i: int| 0 <= i < v.len() implies ub::<B, (K, V)>(&#[trigger] v[i]) == ub::<B, K>(&v[i].0) by {
            assert(ub::<B, (K, V)>(&v[i]) =~= ub::<B, K>(&v[i].0)) by {
                assert forall|b: B| v[i].bounds_spec(&b) == v[i].0.bounds_spec(&b) by {}
                assert forall|x: B| ub::<B, (K, V)>(&v[i]).contains(x) == ub::<B, K>(&v[i].0).contains(x) by {
                    if ub::<B, (K, V)>(&v[i]).contains(x) { assert forall|b: B| #[trigger] v[i].0.bounds_spec(&b) implies B::up(b).contains(x) by { assert(v[i].bounds_spec(&b)); } }
                }
            }
        }
        if B::up(n.bounds).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies ub::<B, K>(&(#[trigger] v[i]).0).contains(x) by { assert(ub::<B, (K, V)>(&v[i]).contains(x)); }
        }
        if kub::<B, K, V>(bag(n.children, 0)).contains(x) {
            assert forall|i: int| 0 <= i < v.len() implies ub::<B, (K, V)>(&#[trigger] v[i]).contains(x) by { assert(ub::<B, K>(&v[i].0).contains(x)); }
        }
    }
    assert(B::up(n.bounds) =~= kub::<B, K, V>(bag(n.children, 0)));
}
/// After a split, s and t have the items of v and x.
pub proof fn lemma_split_in<T>(v: Seq<T>, x: T, s: Seq<T>, t: Seq<T>)
    requires s.to_multiset().add(t.to_multiset()) == v.to_multiset().insert(x)
    ensures
        forall|i: int| 0 <= i < s.len() ==> v.contains(#[trigger] s[i]) || s[i] == x,
        forall|i: int| 0 <= i < t.len() ==> v.contains(#[trigger] t[i]) || t[i] == x,
        (s + t).to_multiset() == v.to_multiset().insert(x), v.push(x).to_multiset() == v.to_multiset().insert(x),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < s.len() implies v.contains(#[trigger] s[i]) || s[i] == x by {
        assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); assert(v.to_multiset().insert(x).count(s[i]) > 0);
        if s[i] != x { assert(v.to_multiset().count(s[i]) > 0); }
    }
    assert forall|i: int| 0 <= i < t.len() implies v.contains(#[trigger] t[i]) || t[i] == x by {
        assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); assert(v.to_multiset().insert(x).count(t[i]) > 0);
        if t[i] != x { assert(v.to_multiset().count(t[i]) > 0); }
    }
    vstd::seq_lib::lemma_multiset_commutative(s, t);
}
/// An inner node that got a child, with its bounds.
pub proof fn lemma_pushed_inner<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, x: Node<B, K, V>, l: nat, a: Alloc)
    requires
        l > 0, good::<B, K, V>(n0, l, a), child_ok::<B, K, V>(x, (l - 1) as nat, a), kind(n1.children, l), inner(n1.children).cap() == a.children.cap,
        inner(n1.children)@ == inner(n0.children)@.push(x), B::up(n1.bounds) == B::up(n0.bounds).intersect(B::up(x.bounds)),
    ensures good::<B, K, V>(n1, l, a), bag(n1.children, l) == bag(n0.children, l).add(bag(x.children, (l - 1) as nat)), clen(n1.children, l) == clen(n0.children, l) + 1
{
    let v = inner(n0.children)@;
    lemma_flats_push(v, x, (l - 1) as nat);
    lemma_kub_add::<B, K, V>(bag(n0.children, l), bag(x.children, (l - 1) as nat));
    assert forall|i: int| 0 <= i < inner(n1.children)@.len() implies child_ok::<B, K, V>(#[trigger] inner(n1.children)@[i], (l - 1) as nat, a) by {
        if i < v.len() { assert(inner(n1.children)@[i] == v[i]); }
    }
}
pub proof fn lemma_pushed_leaf<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, x: (K, V), a: Alloc)
    requires
        good::<B, K, V>(n0, 0, a), x.0.bounds_req(), kind(n1.children, 0), leaf(n1.children).cap() == a.children.cap,
        leaf(n1.children)@ == leaf(n0.children)@.push(x), B::up(n1.bounds) == B::up(n0.bounds).intersect(kub::<B, K, V>(Multiset::singleton(x))),
    ensures good::<B, K, V>(n1, 0, a), bag(n1.children, 0) == bag(n0.children, 0).add(Multiset::singleton(x)), clen(n1.children, 0) == clen(n0.children, 0) + 1
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let v = leaf(n0.children)@;
    assert(bag(n1.children, 0) =~= bag(n0.children, 0).add(Multiset::singleton(x)));
    lemma_kub_add::<B, K, V>(bag(n0.children, 0), Multiset::singleton(x));
    assert forall|i: int| 0 <= i < leaf(n1.children)@.len() implies (#[trigger] leaf(n1.children)@[i]).0.bounds_req() by {
        if i < v.len() { assert(leaf(n1.children)@[i] == v[i]); }
    }
}
/// An inner node that was split.
pub proof fn lemma_split_inner<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, n2: Node<B, K, V>, x: Node<B, K, V>, l: nat, a: Alloc)
    requires
        law::<B, K>(), l > 0, good::<B, K, V>(n0, l, a), child_ok::<B, K, V>(x, (l - 1) as nat, a),
        kind(n1.children, l), inner(n1.children).cap() == a.children.cap, kind(n2.children, l), inner(n2.children).cap() == a.children.cap,
        inner(n1.children)@.to_multiset().add(inner(n2.children)@.to_multiset()) == inner(n0.children)@.to_multiset().insert(x),
        B::up(n1.bounds) == ubs::<B, Node<B, K, V>>(inner(n1.children)@), B::up(n2.bounds) == ubs::<B, Node<B, K, V>>(inner(n2.children)@),
    ensures
        good::<B, K, V>(n1, l, a), good::<B, K, V>(n2, l, a),
        bag(n1.children, l).add(bag(n2.children, l)) == bag(n0.children, l).add(bag(x.children, (l - 1) as nat)),
{
    let v = inner(n0.children)@; let s = inner(n1.children)@; let t = inner(n2.children)@;
    let k = (l - 1) as nat;
    lemma_split_in(v, x, s, t);
    assert forall|i: int| 0 <= i < s.len() implies child_ok::<B, K, V>(#[trigger] s[i], k, a) by {
        if v.contains(s[i]) { let j = choose|j: int| 0 <= j < v.len() && v[j] == s[i]; assert(child_ok::<B, K, V>(v[j], k, a)); }
    }
    assert forall|i: int| 0 <= i < t.len() implies child_ok::<B, K, V>(#[trigger] t[i], k, a) by {
        if v.contains(t[i]) { let j = choose|j: int| 0 <= j < v.len() && v[j] == t[i]; assert(child_ok::<B, K, V>(v[j], k, a)); }
    }
    lemma_good_ubs::<B, K, V>(n1, l, a);
    lemma_good_ubs::<B, K, V>(n2, l, a);
    lemma_flats_add(s, t, k);
    vstd::seq_lib::lemma_multiset_commutative(flats(s, k), flats(t, k));
    lemma_bags_perm(s + t, v.push(x), k);
    lemma_flats_push(v, x, k);
}
pub proof fn lemma_split_leaf<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, n2: Node<B, K, V>, x: (K, V), a: Alloc)
    requires
        law::<B, K>(), good::<B, K, V>(n0, 0, a), x.0.bounds_req(),
        kind(n1.children, 0), leaf(n1.children).cap() == a.children.cap, kind(n2.children, 0), leaf(n2.children).cap() == a.children.cap,
        leaf(n1.children)@.to_multiset().add(leaf(n2.children)@.to_multiset()) == leaf(n0.children)@.to_multiset().insert(x),
        B::up(n1.bounds) == ubs::<B, (K, V)>(leaf(n1.children)@), B::up(n2.bounds) == ubs::<B, (K, V)>(leaf(n2.children)@),
    ensures
        good::<B, K, V>(n1, 0, a), good::<B, K, V>(n2, 0, a),
        bag(n1.children, 0).add(bag(n2.children, 0)) == bag(n0.children, 0).add(Multiset::singleton(x)),
{
    let v = leaf(n0.children)@; let s = leaf(n1.children)@; let t = leaf(n2.children)@;
    lemma_split_in(v, x, s, t);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.bounds_req() by {
        if v.contains(s[i]) { let j = choose|j: int| 0 <= j < v.len() && v[j] == s[i]; assert(v[j].0.bounds_req()); }
    }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.bounds_req() by {
        if v.contains(t[i]) { let j = choose|j: int| 0 <= j < v.len() && v[j] == t[i]; assert(v[j].0.bounds_req()); }
    }
    lemma_good_leaf::<B, K, V>(n1, a);
    lemma_good_leaf::<B, K, V>(n2, a);
    assert(bag(n0.children, 0).insert(x) =~= bag(n0.children, 0).add(Multiset::singleton(x)));
}
/// A child got the entries eb, and its bounds were added.
pub proof fn lemma_updated<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, i: int, l: nat, a: Alloc, eb: Entries<K, V>)
    requires
        l > 0, good::<B, K, V>(n0, l, a), kind(n1.children, l), inner(n1.children).cap() == a.children.cap,
        0 <= i < inner(n0.children)@.len(), inner(n1.children)@ == inner(n0.children)@.update(i, inner(n1.children)@[i]),
        child_ok::<B, K, V>(inner(n1.children)@[i], (l - 1) as nat, a),
        bag(inner(n1.children)@[i].children, (l - 1) as nat) == bag(inner(n0.children)@[i].children, (l - 1) as nat).add(eb),
        B::up(n1.bounds) == B::up(n0.bounds).intersect(kub::<B, K, V>(eb)),
    ensures good::<B, K, V>(n1, l, a), bag(n1.children, l) == bag(n0.children, l).add(eb), clen(n1.children, l) == clen(n0.children, l)
{
    let v = inner(n0.children)@;
    let v1 = inner(n1.children)@;
    let k = (l - 1) as nat;
    lemma_flats_update(v, v1, i, k);
    assert(bag(n1.children, l) =~= bag(n0.children, l).add(eb));
    lemma_kub_add::<B, K, V>(bag(n0.children, l), eb);
    assert forall|j: int| 0 <= j < v1.len() implies child_ok::<B, K, V>(#[trigger] v1[j], k, a) by { if j != i { assert(child_ok::<B, K, V>(v[j], k, a)); } }
}
/// the same node but for the representation of its children
pub open spec fn eqv<B, K, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat) -> bool {
    n0.bounds == n1.bounds && kind(n1.children, l) && (l == 0 ==> leaf(n1.children) == leaf(n0.children)) && (l > 0 ==> inner(n1.children) == inner(n0.children))
}
impl<B, Key, Value> InnerNodeChildrenContainer<B, Key, Value> {
    pub open spec fn wf(&self) -> bool { self.level@ >= 1 && self.children.wf() && self.children.cap() == self.alloc.children.cap }
}
impl<B, Key, Value> InnerNodeChildrenIntoIter<B, Key, Value> {
    pub open spec fn wf(&self) -> bool { self.level@ >= 1 && self.children.wf() }
}
impl<B, Key, Value> NodeChildrenContainer<B, Key, Value> {
    pub open spec fn wf(&self) -> bool { match *self { NodeChildrenContainer::Inner(c) => c.wf(), NodeChildrenContainer::Leaf(c) => c.wf() } }
}

// ---- clones
pub open spec fn copy_of<T: Clone>(a: T, b: T) -> bool { call_ensures(T::clone, (&a,), b) }
pub open spec fn clones<T: Clone>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> copy_of(#[trigger] s[i], t[i]) }
/// d is a clone of c: its own vectors, of the same capacity, with clones of the entries and of the bounds
pub open spec fn cloned_children<B: Clone, K: Clone, V: Clone>(c: NodeChildren<B, K, V>, d: NodeChildren<B, K, V>, l: nat, cap: nat) -> bool
    decreases l, 0nat
{
    &&& kind(d, l)
    &&& l == 0 ==> leaf(d).cap() == cap && clones(leaf(c)@, leaf(d)@)
    &&& l > 0 ==> inner(d).cap() == cap && cloned_nodes(inner(c)@, inner(d)@, (l - 1) as nat, cap)
}
pub open spec fn cloned_nodes<B: Clone, K: Clone, V: Clone>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat, cap: nat) -> bool
    decreases l, 1nat
{
    s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> call_ensures(B::clone, (&s[i].bounds,), t[i].bounds) && cloned_children(s[i].children, t[i].children, l, cap)
}
impl<'a, B, Key, Value> NodeChildrenRef<'a, B, Key, Value> {
    pub open spec fn lv(&self) -> nat { match *self { NodeChildrenRef::Inner(c) => c.level@ as nat, NodeChildrenRef::Leaf(_) => 0 } }
}
/// Clones hold clones of the entries, in the same order.
pub proof fn lemma_cloned_flat<B: Clone, K: Clone, V: Clone>(c: NodeChildren<B, K, V>, d: NodeChildren<B, K, V>, l: nat, cap: nat)
    requires cloned_children(c, d, l, cap)
    ensures clones(flat(c, l), flat(d, l)), clen(c, l) == clen(d, l)
    decreases l, 0nat, 0nat
{
    if l > 0 { lemma_cloned_flats(inner(c)@, inner(d)@, (l - 1) as nat, cap); }
}
pub proof fn lemma_cloned_flats<B: Clone, K: Clone, V: Clone>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat, cap: nat)
    requires cloned_nodes(s, t, l, cap)
    ensures clones(flats(s, l), flats(t, l))
    decreases l, 1nat, s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies call_ensures(B::clone, (&(#[trigger] s.drop_last()[i]).bounds,), t.drop_last()[i].bounds) && cloned_children(s.drop_last()[i].children, t.drop_last()[i].children, l, cap) by {
            assert(s[i] == s.drop_last()[i]);
        }
        assert(cloned_nodes(s.drop_last(), t.drop_last(), l, cap));
        lemma_cloned_flats(s.drop_last(), t.drop_last(), l, cap);
        assert(s.last() == s[s.len() - 1]);
        lemma_cloned_flat(s.last().children, t.last().children, l, cap);
        let x = flats(s.drop_last(), l);
        let y = flat(s.last().children, l);
        let x2 = flats(t.drop_last(), l);
        let y2 = flat(t.last().children, l);
        assert forall|i: int| 0 <= i < (x + y).len() implies copy_of(#[trigger] (x + y)[i], (x2 + y2)[i]) by {
            if i < x.len() { assert(x[i] == (x + y)[i]); } else { assert(y[i - x.len()] == (x + y)[i]); }
        }
    }
}
/// What a clone relies on: cloned keys have the same bounds.
pub open spec fn clone_law<B: Bounds, K: Bounded<B> + Clone, V: Clone>() -> bool {
    forall|e: (K, V), f: (K, V)| #[trigger] copy_of(e, f) ==> ub::<B, K>(&e.0) == ub::<B, K>(&f.0) && (e.0.bounds_req() ==> f.0.bounds_req())
}
pub proof fn lemma_kub_clones<B: Bounds, K: Bounded<B> + Clone, V: Clone>(s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires clone_law::<B, K, V>(), clones(s, t)
    ensures kub::<B, K, V>(s.to_multiset()) == kub::<B, K, V>(t.to_multiset())
{
    assert forall|x: B| kub::<B, K, V>(s.to_multiset()).contains(x) == kub::<B, K, V>(t.to_multiset()).contains(x) by {
        lemma_kub_leaf::<B, K, V>(s, x);
        lemma_kub_leaf::<B, K, V>(t, x);
        assert forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() implies ub::<B, K>(&s[i].0) == ub::<B, K>(&t[i].0) by { assert(copy_of(s[i], t[i])); }
    }
    assert(kub::<B, K, V>(s.to_multiset()) =~= kub::<B, K, V>(t.to_multiset()));
}
/// A clone is as well-formed as the original.
pub proof fn lemma_cloned_good<B: Bounds + Clone, K: Bounded<B> + Clone, V: Clone>(n: Node<B, K, V>, m: Node<B, K, V>, l: nat, a: Alloc)
    requires bounds_law::<B>(), clone_law::<B, K, V>(), good::<B, K, V>(n, l, a), call_ensures(B::clone, (&n.bounds,), m.bounds), cloned_children(n.children, m.children, l, a.children.cap as nat)
    ensures good::<B, K, V>(m, l, a)
    decreases l
{
    let cap = a.children.cap as nat;
    lemma_cloned_flat(n.children, m.children, l, cap);
    lemma_kub_clones::<B, K, V>(flat(n.children, l), flat(m.children, l));
    if l == 0 {
        assert forall|i: int| 0 <= i < leaf(m.children)@.len() implies (#[trigger] leaf(m.children)@[i]).0.bounds_req() by {
            assert(copy_of(leaf(n.children)@[i], leaf(m.children)@[i]));
            assert(leaf(n.children)@[i].0.bounds_req());
        }
    } else {
        let s = inner(n.children)@;
        let t = inner(m.children)@;
        assert forall|i: int| 0 <= i < t.len() implies child_ok::<B, K, V>(#[trigger] t[i], (l - 1) as nat, a) by {
            assert(child_ok::<B, K, V>(s[i], (l - 1) as nat, a));
            lemma_cloned_good::<B, K, V>(s[i], t[i], (l - 1) as nat, a);
            lemma_cloned_flat(s[i].children, t[i].children, (l - 1) as nat, cap);
        }
    }
}

// ---- unique insertion
pub proof fn lemma_no_match_all<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(v: Seq<Node<B, K, V>>, l: nat, q: &Q)
    requires forall|j: int| 0 <= j < v.len() ==> no_match(flat((#[trigger] v[j]).children, l), q)
    ensures no_match(flats(v, l), q)
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|j: int| 0 <= j < v.drop_last().len() implies no_match(flat((#[trigger] v.drop_last()[j]).children, l), q) by { assert(v[j] == v.drop_last()[j]); }
        lemma_no_match_all(v.drop_last(), l, q);
        assert(v[v.len() - 1] == v.last());
        lemma_no_match_add(flats(v.drop_last(), l), flat(v.last().children, l), q);
    }
}
/// a match can only be in child i
pub proof fn lemma_no_match_at<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(v: Seq<Node<B, K, V>>, l: nat, q: &Q, i: int)
    requires 0 <= i < v.len(), forall|j: int| 0 <= j < v.len() && j != i ==> no_match(flat((#[trigger] v[j]).children, l), q)
    ensures no_match(flats(v.take(i), l), q), no_match(flats(v, l), q) == no_match(flat(v[i].children, l), q)
{
    assert forall|j: int| 0 <= j < v.take(i).len() implies no_match(flat((#[trigger] v.take(i)[j]).children, l), q) by { assert(v[j] == v.take(i)[j]); }
    assert forall|j: int| 0 <= j < v.skip(i + 1).len() implies no_match(flat((#[trigger] v.skip(i + 1)[j]).children, l), q) by { assert(v[j + i + 1] == v.skip(i + 1)[j]); }
    lemma_no_match_all(v.take(i), l, q);
    lemma_no_match_all(v.skip(i + 1), l, q);
    lemma_flats_at(v, i, l);
    lemma_no_match_add(flats(v.take(i), l), flat(v[i].children, l), q);
    lemma_no_match_add(flats(v.take(i), l) + flat(v[i].children, l), flats(v.skip(i + 1), l), q);
}
pub proof fn lemma_overwritten_at<B, K: Borrow<Q>, V, Q: PartialEq + ?Sized>(v: Seq<Node<B, K, V>>, w: Seq<Node<B, K, V>>, i: int, l: nat, q: &Q, x: V, value: V)
    requires
        0 <= i < v.len(), v.len() == w.len(), forall|j: int| 0 <= j < v.len() && j != i ==> v[j] == w[j],
        forall|j: int| 0 <= j < v.len() && j != i ==> no_match(flat((#[trigger] v[j]).children, l), q),
        overwritten(x, flat(v[i].children, l), flat(w[i].children, l), q, value),
    ensures overwritten(x, flats(v, l), flats(w, l), q, value)
{
    lemma_no_match_at(v, l, q, i);
    lemma_flats_update(v, w, i, l);
    let fc = flat(v[i].children, l);
    let j = choose|j: int| #[trigger] first_match(fc, q, j) && x == fc[j].1 && flat(w[i].children, l) == fc.update(j, (fc[j].0, value));
    let a = flats(v.take(i), l);
    let c = flats(v.skip(i + 1), l);
    lemma_first_match(a, fc, c, q, j);
    assert(a + fc.update(j, (fc[j].0, value)) + c =~= (a + fc + c).update(a.len() + j, (fc[j].0, value)));
    assert(first_match(flats(v, l), q, a.len() + j));
}
pub proof fn lemma_overwritten_good<B: Bounds + Clone, K: Bounded<B> + PartialEq, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, i: int, l: nat, a: Alloc, q: &K, x: V, value: V)
    requires
        law::<B, K>(), borrow_law::<B, K, K>(), l > 0, good::<B, K, V>(n0, l, a), kind(n1.children, l), inner(n1.children).cap() == a.children.cap,
        0 <= i < inner(n0.children)@.len(), inner(n1.children)@ == inner(n0.children)@.update(i, inner(n1.children)@[i]),
        child_ok::<B, K, V>(inner(n1.children)@[i], (l - 1) as nat, a),
        overwritten(x, flat(n0.children, l), flat(n1.children, l), q, value),
        B::up(n1.bounds) == B::up(n0.bounds).intersect(ub::<B, K>(q)),
    ensures good::<B, K, V>(n1, l, a), clen(n1.children, l) == clen(n0.children, l)
{
    let s = flat(n0.children, l);
    let t = flat(n1.children, l);
    let k = (l - 1) as nat;
    let j = choose|j: int| #[trigger] first_match(s, q, j) && x == s[j].1 && t == s.update(j, (s[j].0, value));
    lemma_same_keys::<B, K, V>(s, t);
    assert(matches(s[j].0, q));
    assert forall|y: B| B::up(n0.bounds).contains(y) implies ub::<B, K>(q).contains(y) by { lemma_kub_leaf::<B, K, V>(s, y); assert(ub::<B, K>(&s[j].0).contains(y)); }
    assert(B::up(n1.bounds) =~= B::up(n0.bounds));
    assert forall|j: int| 0 <= j < inner(n1.children)@.len() implies child_ok::<B, K, V>(#[trigger] inner(n1.children)@[j], k, a) by { if j != i { assert(child_ok::<B, K, V>(inner(n0.children)@[j], k, a)); } }
}
/// as good with the same children in the same place
pub proof fn lemma_same_good<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat, a: Alloc)
    requires
        good::<B, K, V>(n0, l, a), n0.bounds == n1.bounds, kind(n1.children, l),
        l == 0 ==> leaf(n1.children).cap() == a.children.cap && leaf(n0.children)@ =~= leaf(n1.children)@,
        l > 0 ==> inner(n1.children).cap() == a.children.cap && inner(n0.children)@ =~= inner(n1.children)@,
    ensures good::<B, K, V>(n1, l, a), flat(n1.children, l) == flat(n0.children, l), clen(n1.children, l) == clen(n0.children, l)
{
}
#[verifier::prophetic]
pub open spec fn cur<'a, B, K, V>(r: NodeRefMut<'a, B, K, V>) -> Node<B, K, V> { *r.node }
/// the value of the first match is v and becomes value
pub open spec fn overwritten<K: Borrow<Q>, V, Q: PartialEq + ?Sized>(v: V, s: Seq<(K, V)>, t: Seq<(K, V)>, q: &Q, value: V) -> bool {
    exists|i: int| #[trigger] first_match(s, q, i) && v == s[i].1 && t == s.update(i, (s[i].0, value))
}
pub open spec fn unique_inserted<B: Bounds, K: Bounded<B> + PartialEq, V>(
    res: (Option<V>, Option<NodeContainer<B, K, V>>), n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize, a: Alloc, key: K, value: V,
) -> bool {
    &&& res.0 is None ==> no_match(flat(n0.children, l as nat), &key) && inserted::<B, K, V>(res.1, n0, n1, l, a, Multiset::singleton((key, value)))
    &&& res.0 is Some ==> res.1 is None && good::<B, K, V>(n1, l as nat, a) && clen(n1.children, l as nat) == clen(n0.children, l as nat)
        && overwritten(res.0->Some_0, flat(n0.children, l as nat), flat(n1.children, l as nat), &key, value)
}
pub proof fn lemma_prune_with<B: Bounds + Clone, K: Borrow<Q> + Bounded<B>, V, Q: Bounded<B> + PartialEq + ?Sized>(n: Node<B, K, V>, l: nat, q: &Q, b: B, nb: B)
    requires law::<B, K>(), borrow_law::<B, K, Q>(), B::up(nb) == kub::<B, K, V>(bag(n.children, l)), q.bounds_spec(&b)
    ensures !<B as Contains<B>>::contains_spec(&nb, &b) ==> no_match(flat(n.children, l), q)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = flat(n.children, l);
    if exists|i: int| 0 <= i < s.len() && matches((#[trigger] s[i]).0, q) {
        let i = choose|i: int| 0 <= i < s.len() && matches((#[trigger] s[i]).0, q);
        assert(s.contains(s[i]));
        assert(bag(n.children, l).count(s[i]) > 0);
        assert(B::up(nb).contains(nb));
        assert(ub::<B, K>(&s[i].0).contains(nb));
        lemma_ub::<B, Q>(q, b);
        assert(B::up(b).contains(nb));
    }
}
pub proof fn lemma_tight<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc)
    requires good::<B, K, V>(n, l, a)
    ensures tight::<B, K, V>(n, l)
    decreases l
{
    if l > 0 {
        assert forall|i: int| 0 <= i < inner(n.children)@.len() implies tight::<B, K, V>(#[trigger] inner(n.children)@[i], (l - 1) as nat) by {
            assert(child_ok::<B, K, V>(inner(n.children)@[i], (l - 1) as nat, a));
            lemma_tight::<B, K, V>(inner(n.children)@[i], (l - 1) as nat, a);
        }
    }
}
/// the same keys in the same order
pub open spec fn same_keys<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == t[i].0
}
pub proof fn lemma_same_keys<B: Bounds, K: Bounded<B>, V>(s: Seq<(K, V)>, t: Seq<(K, V)>)
    requires same_keys(s, t)
    ensures kub::<B, K, V>(s.to_multiset()) == kub::<B, K, V>(t.to_multiset())
{
    let a = kub::<B, K, V>(s.to_multiset());
    let b = kub::<B, K, V>(t.to_multiset());
    assert forall|x: B| a.contains(x) == b.contains(x) by {
        lemma_kub_leaf::<B, K, V>(s, x);
        lemma_kub_leaf::<B, K, V>(t, x);
        if a.contains(x) { assert forall|i: int| 0 <= i < t.len() implies ub::<B, K>(&(#[trigger] t[i]).0).contains(x) by { assert(s[i].0 == t[i].0); } }
        if b.contains(x) { assert forall|i: int| 0 <= i < s.len() implies ub::<B, K>(&(#[trigger] s[i]).0).contains(x) by { assert(s[i].0 == t[i].0); } }
    }
    assert(a =~= b);
}
pub proof fn lemma_like_flat<B, K, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat)
    requires like(n0, n1, l)
    ensures same_keys(flat(n0.children, l), flat(n1.children, l))
    decreases l, 0nat
{
    if l > 0 {
        let s = inner(n0.children)@;
        let t = inner(n1.children)@;
        assert forall|i: int| 0 <= i < s.len() implies like(#[trigger] s[i], t[i], (l - 1) as nat) by { }
        lemma_like_flats(s, t, (l - 1) as nat);
    }
}
pub proof fn lemma_like_flats<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> like(#[trigger] s[i], t[i], l)
    ensures same_keys(flats(s, l), flats(t, l))
    decreases l, 1 + s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        assert forall|i: int| 0 <= i < n implies like(#[trigger] s.drop_last()[i], t.drop_last()[i], l) by { assert(s[i] == s.drop_last()[i]); }
        lemma_like_flats(s.drop_last(), t.drop_last(), l);
        assert(like(s[n], t[n], l));
        lemma_like_flat(s.last(), t.last(), l);
    }
}
pub proof fn lemma_like_good<B: Bounds + Clone, K: Bounded<B>, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat, a: Alloc)
    requires like(n0, n1, l), good::<B, K, V>(n0, l, a)
    ensures good::<B, K, V>(n1, l, a), clen(n1.children, l) == clen(n0.children, l)
    decreases l
{
    lemma_like_flat(n0, n1, l);
    lemma_same_keys::<B, K, V>(flat(n0.children, l), flat(n1.children, l));
    if l > 0 {
        assert forall|i: int| 0 <= i < inner(n1.children)@.len() implies child_ok::<B, K, V>(#[trigger] inner(n1.children)@[i], (l - 1) as nat, a) by {
            assert(child_ok::<B, K, V>(inner(n0.children)@[i], (l - 1) as nat, a));
            assert(like(inner(n0.children)@[i], inner(n1.children)@[i], (l - 1) as nat));
            lemma_like_good::<B, K, V>(inner(n0.children)@[i], inner(n1.children)@[i], (l - 1) as nat, a);
        }
    } else {
        assert forall|i: int| 0 <= i < leaf(n1.children)@.len() implies (#[trigger] leaf(n1.children)@[i]).0.bounds_req() by { assert(leaf(n0.children)@[i].0 == leaf(n1.children)@[i].0); assert(leaf(n0.children)@[i].0.bounds_req()); }
    }
}
