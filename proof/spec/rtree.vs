//! derive(Clone) of RTree clones its root
//@ include tree.vs
//@ module rtree from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{select::*, split::*, bounds::*, contains::Contains, vector::*, node::*, fc_vec};
use vstd::std_specs::cmp::*;
use vstd::multiset::Multiset;
//@ only RTreeConfig;RTree
//@ drop RTree::*iter*; RTree::min_by*; RTree::filter_min_by*; RTree::*join; RTree::_debug_assert*
//@ rewrite B: Contains<B>, Key: Borrow<Q>, Q: Eq + Bounded<B> + ?Sized, ==> B: Bounds + Clone, Key: Borrow<Q> + Bounded<B>, Q: Eq + Bounded<B> + ?Sized,
//@ rewrite RTree<B, Key, Value> where B: Bounds, ==> RTree<B, Key, Value> where B: Bounds + Clone, Key: Bounded<B>,
//@ item RTreeConfig
derive Clone, Copy
//@ item RTree
attr #[verifier::reject_recursive_types(B)]
attr #[verifier::reject_recursive_types(Key)]
attr #[verifier::reject_recursive_types(Value)]
//@ fn RTree::new
    requires law::<B, Key>(), config.min_children >= 1, config.max_children >= 2 * config.min_children
    ensures
        res.sound(), res.entries() =~= Seq::empty(), res.root.alloc.min_children == config.min_children, res.root.alloc.children.cap == config.max_children,
//@ tailbind t
        proof {
            lemma_kub_empty::<B, Key, Value>();
            assert(leaf(t.root.node.children)@ =~= Seq::empty());
            assert(B::up(t.root.node.bounds) =~= kub::<B, Key, Value>(bag(t.root.node.children, 0)));
        }
//@ fn RTree::get
    requires law::<B, Key>(), borrow_law::<B, Key, Q>(), key.bounds_req(), self.sound()
    ensures
        res is None ==> no_match(self.entries(), key),
        res is Some ==> exists|i: int| #[trigger] first_match(self.entries(), key, i) && *res->Some_0 == self.entries()[i].1,
//@ start
        proof {
            lemma_fits::<B, Key, Value>(self.root.node.children, self.root.level as nat, self.root.alloc);
            lemma_tight::<B, Key, Value>(self.root.node, self.root.level as nat, self.root.alloc);
        }
        let ghost nr = NodeRef { level: self.root.level, node: &self.root.node };
        proof { assert(fits(nr.node.children, nr.level as nat, self.root.alloc.children.cap as nat)); assert(nr.wf()); assert(self.entries() == flat(nr.node.children, nr.level as nat)); }
//@ tailbind r
        proof { if r is Some {
            let i = choose|i: int| #[trigger] first_match(flat(nr.node.children, nr.level as nat), key, i) && *r->Some_0 == flat(nr.node.children, nr.level as nat)[i].1;
            assert(first_match(self.entries(), key, i));
        } }
//@ fn RTree::get_mut
    requires law::<B, Key>(), borrow_law::<B, Key, Q>(), key.bounds_req(), old(self).sound()
    ensures
        final(self).sound(), final(self).root.alloc == old(self).root.alloc, final(self).root.level == old(self).root.level,
        found(res, old(self).root.node, final(self).root.node, old(self).root.level as nat, key),
        res is None ==> no_match(old(self).entries(), key) && final(self).entries() == old(self).entries(),
        res is Some ==> exists|i: int| #[trigger] first_match(old(self).entries(), key, i) && *res->Some_0 == old(self).entries()[i].1
            && final(self).entries() == old(self).entries().update(i, (old(self).entries()[i].0, *final(res->Some_0))),
//@ start
        proof {
            lemma_fits::<B, Key, Value>(self.root.node.children, self.root.level as nat, self.root.alloc);
            lemma_tight::<B, Key, Value>(self.root.node, self.root.level as nat, self.root.alloc);
        }
        let ghost n0 = self.root.node;
        let ghost l = self.root.level as nat;
        proof {
            assert(self.entries() == flat(n0.children, l));
            assert forall|m: Node<B, Key, Value>| #[trigger] like(n0, m, l) implies good::<B, Key, Value>(m, l, self.root.alloc) && clen(m.children, l) == clen(n0.children, l) by {
                lemma_like_good::<B, Key, Value>(n0, m, l, self.root.alloc);
            }
        }
//@ fn RTree::len
    requires self.fits(), self.entries().len() <= usize::MAX
    ensures res == self.entries().len()
//@ fn RTree::is_empty
    requires self.fits(), self.filled(), self.entries().len() <= usize::MAX
    ensures res == (self.entries().len() == 0)
//@ start
        proof { lemma_filled(self.root.node.children, self.root.level as nat); }
//@ fn RTree::insert
    requires law::<B, Key>(), key.bounds_req(), old(self).sound()
    ensures
        final(self).sound(), final(self).root.alloc == old(self).root.alloc,
        final(self).entries().to_multiset() == old(self).entries().to_multiset().insert((key, value)),
//@ fn RTree::insert_unique
    requires law::<B, Key>(), borrow_law::<B, Key, Key>(), key.bounds_req(), old(self).sound()
    ensures
        final(self).sound(), final(self).root.alloc == old(self).root.alloc,
        res is None ==> no_match(old(self).entries(), &key) && final(self).entries().to_multiset() == old(self).entries().to_multiset().insert((key, value)),
        res is Some ==> overwritten(res->Some_0, old(self).entries(), final(self).entries(), &key, value),
//@ fn RTree::remove
    requires law::<B, Key>(), borrow_law::<B, Key, Q>(), hit_law::<B, Q>(key), key.bounds_req(), old(self).sound()
    ensures
        final(self).sound(), final(self).root.alloc == old(self).root.alloc,
        res is None ==> no_match(old(self).entries(), key) && final(self).entries() == old(self).entries(),
        res is Some ==> taken(res->Some_0, old(self).entries(), final(self).entries().to_multiset(), key),
//@ text
impl<B, Key, Value> RTree<B, Key, Value> {
    /// the entries, in the order iteration yields them
    pub open spec fn entries(&self) -> Seq<(Key, Value)> { flat(self.root.node.children, self.root.level as nat) }
    pub open spec fn fits(&self) -> bool { fits(self.root.node.children, self.root.level as nat, self.root.alloc.children.cap as nat) }
    /// no inner node without children
    pub open spec fn filled(&self) -> bool { filled(self.root.node.children, self.root.level as nat) }
}
/// What every operation leaves behind: the configuration is valid, every node's bounds are the union of the bounds of what is below,
/// leaves are at one depth, occupancy is within the limits, and a root that is not a leaf has two children.
impl<B: Bounds + Clone, Key: Bounded<B>, Value> RTree<B, Key, Value> {
    pub open spec fn sound(&self) -> bool {
        &&& cfg(self.root.alloc)
        &&& good::<B, Key, Value>(self.root.node, self.root.level as nat, self.root.alloc)
        &&& self.root.level > 0 ==> clen(self.root.node.children, self.root.level as nat) >= 2
    }
}
pub open spec fn filled<B, K, V>(c: NodeChildren<B, K, V>, l: nat) -> bool
    decreases l
{
    l > 0 ==> inner(c)@.len() > 0 && forall|i: int| 0 <= i < inner(c)@.len() ==> clen((#[trigger] inner(c)@[i]).children, (l - 1) as nat) > 0 && filled(inner(c)@[i].children, (l - 1) as nat)
}
pub proof fn lemma_filled<B, K, V>(c: NodeChildren<B, K, V>, l: nat)
    requires filled(c, l)
    ensures (flat(c, l).len() == 0) == (clen(c, l) == 0)
    decreases l
{
    if l > 0 {
        let v = inner(c)@;
        lemma_filled(v.last().children, (l - 1) as nat);
        assert(v.last() == v[v.len() - 1]);
    }
}
/// Every sound tree satisfies what the reading operations ask for.
pub proof fn theorem_sound<B: Bounds + Clone, K: Bounded<B>, V>(t: RTree<B, K, V>)
    requires t.sound()
    ensures t.fits(), t.filled()
{
    lemma_fits::<B, K, V>(t.root.node.children, t.root.level as nat, t.root.alloc);
    lemma_good_filled::<B, K, V>(t.root.node, t.root.level as nat, t.root.alloc);
}
pub proof fn lemma_good_filled<B: Bounds + Clone, K: Bounded<B>, V>(n: Node<B, K, V>, l: nat, a: Alloc)
    requires cfg(a), good::<B, K, V>(n, l, a), l > 0 ==> clen(n.children, l) > 0
    ensures filled(n.children, l)
    decreases l
{
    if l > 0 {
        let v = inner(n.children)@;
        assert forall|i: int| 0 <= i < v.len() implies clen((#[trigger] v[i]).children, (l - 1) as nat) > 0 && filled(v[i].children, (l - 1) as nat) by {
            assert(child_ok::<B, K, V>(v[i], (l - 1) as nat, a));
            lemma_good_filled::<B, K, V>(v[i], (l - 1) as nat, a);
        }
    }
}
/// A clone is sound, too, with the same configuration and clones of the entries in the same order.
pub proof fn theorem_clone<B: Bounds + Clone, K: Bounded<B> + Clone, V: Clone>(t: RTree<B, K, V>, c: RTree<B, K, V>)
    requires
        law::<B, K>(), clone_law::<B, K, V>(), t.sound(), c.root.alloc == t.root.alloc, c.root.level == t.root.level,
        call_ensures(B::clone, (&t.root.node.bounds,), c.root.node.bounds), cloned_children(t.root.node.children, c.root.node.children, t.root.level as nat, t.root.alloc.children.cap as nat),
    ensures c.sound(), clones(t.entries(), c.entries())
{
    lemma_cloned_good::<B, K, V>(t.root.node, c.root.node, t.root.level as nat, t.root.alloc);
    lemma_cloned_flat(t.root.node.children, c.root.node.children, t.root.level as nat, t.root.alloc.children.cap as nat);
}
/// Boxes are what the trees ask of bounds.
pub proof fn theorem_boxes<V: Vector + Clone>()
    requires V::vlaw(), forall|a: AABB<V>, b: AABB<V>| #[trigger] call_ensures(<AABB<V> as Clone>::clone, (&a,), b) ==> box_same(a, b)
    ensures bounds_law::<AABB<V>>()
{
    box_laws::<V>();
    V::lek_laws();
    assert forall|a: AABB<V>, b: AABB<V>| #[trigger] call_ensures(<AABB<V> as Clone>::clone, (&a,), b) implies AABB::<V>::up(a) == AABB::<V>::up(b) by { lemma_same_up(a, b); }
    assert forall|a: AABB<V>| #[trigger] AABB::<V>::is_empty_bounds(&a) implies AABB::<V>::up(a) == ISet::<AABB<V>>::full() by {
        assert(AABB::<V>::up(a) =~= ISet::<AABB<V>>::full());
    }
}
pub proof fn lemma_same_up<V: Vector>(a: AABB<V>, b: AABB<V>)
    requires V::vlaw(), box_same(a, b)
    ensures AABB::<V>::up(a) == AABB::<V>::up(b)
{
    box_laws::<V>();
    assert(box_in_box(a, b));
    assert(box_in_box(b, a));
    assert(AABB::<V>::up(a) =~= AABB::<V>::up(b));
}
pub proof fn lemma_same_trans<V: Vector>(t: V, a: V, b: V)
    requires V::vlaw(), same(t, a), same(t, b)
    ensures same(a, b)
{
    V::lek_laws();
    assert forall|k: int| 0 <= k < V::dim() implies a.lek(&b, k) && b.lek(&a, k) by { assert(t.lek(&a, k) && a.lek(&t, k) && t.lek(&b, k) && b.lek(&t, k)); }
}
/// Points are lawful keys ...
pub proof fn theorem_point_keys<V: Vector + Clone>()
    requires V::vlaw(), vclone::<V>()
    ensures key_law::<AABB<V>, V>(), forall|q: &V| #[trigger] hit_law::<AABB<V>, V>(q)
{
    V::lek_laws();
    assert forall|t: &V, a: AABB<V>, b: AABB<V>| #[trigger] t.bounds_spec(&a) && #[trigger] t.bounds_spec(&b) implies AABB::<V>::up(a) == AABB::<V>::up(b) by {
        assert(same(*t, a.min) && same(*t, a.max) && same(*t, b.min) && same(*t, b.max));
        lemma_same_trans(*t, a.min, b.min); lemma_same_trans(*t, a.max, b.max);
        lemma_same_up(a, b);
    }
    assert forall|q: &V| #[trigger] hit_law::<AABB<V>, V>(q) by {
        assert forall|b: AABB<V>, x: AABB<V>| #[trigger] q.bounds_spec(&b) && #[trigger] <AABB<V> as Contains<AABB<V>>>::contains_spec(&x, &b) implies <AABB<V> as super::intersects::Intersects<AABB<V>>>::intersects_spec(&x, &b) by {
            assert forall|k: int| 0 <= k < V::dim() implies x.min.lek(&b.max, k) && b.min.lek(&x.max, k) by { assert(x.min.lek(&b.min, k) && b.max.lek(&x.max, k)); assert(b.min.lek(q, k) && q.lek(&b.max, k)); }
        }
    }
}
/// ... and so are boxes, for removal those with min <= max.
pub proof fn theorem_box_keys<N: Clone + core::ops::Add<Output = N> + core::ops::Sub<Output = N> + Ord + num_traits::Bounded, const D: usize>()
    requires <SVec<N, D> as Vector>::vlaw(), sbox_clone::<N, D>()
    ensures
        key_law::<SAABB<N, D>, SAABB<N, D>>(),
        forall|q: &SAABB<N, D>| proper(*q) ==> #[trigger] hit_law::<SAABB<N, D>, SAABB<N, D>>(q),
{
    <SVec<N, D> as Vector>::lek_laws();
    assert forall|t: &SAABB<N, D>, a: SAABB<N, D>, b: SAABB<N, D>| #[trigger] t.bounds_spec(&a) && #[trigger] t.bounds_spec(&b) implies SAABB::<N, D>::up(a) == SAABB::<N, D>::up(b) by {
        assert(box_same(a, b)) by { assert forall|k: int| 0 <= k < D implies a.min.lek(&b.min, k) && b.min.lek(&a.min, k) && a.max.lek(&b.max, k) && b.max.lek(&a.max, k) by { assert(le(t.min.0[k], a.min.0[k]) && le(t.min.0[k], b.min.0[k])); } }
        lemma_same_up(a, b);
    }
    assert forall|q: &SAABB<N, D>| proper(*q) implies #[trigger] hit_law::<SAABB<N, D>, SAABB<N, D>>(q) by {
        assert forall|b: SAABB<N, D>, x: SAABB<N, D>| #[trigger] q.bounds_spec(&b) && #[trigger] <SAABB<N, D> as Contains<SAABB<N, D>>>::contains_spec(&x, &b) implies
            <SAABB<N, D> as super::intersects::Intersects<SAABB<N, D>>>::intersects_spec(&x, &b) by {
            assert forall|k: int| 0 <= k < D implies x.min.lek(&b.max, k) && b.min.lek(&x.max, k) by {
                assert(x.min.lek(&b.min, k) && b.max.lek(&x.max, k));
                assert(q.min.lek(&q.max, k));
                assert(le(q.min.0[k], b.min.0[k]) && le(b.max.0[k], q.max.0[k]));
            }
        }
    }
}
