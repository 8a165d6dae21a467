//! the items a slice iterator has left are determined by its state; one that is dropped leaves them as they are
//@ include iter.vs
//@ module itermut from src/iter.rs
//@ uses
use super::*;
use super::std_model::*;
use super::fc_vec::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::{NoFilter, SpatialFilter}, node::*, iter_stack::*, iter::*, util::empty_slice};
use core::marker::PhantomData;
use core::slice;
use vstd::std_specs::iter::IteratorSpec;
//@ only TreeIterMut;IterMut;IterMut::*;FilterIterMut;FilterIterMut::*;IterMut<Stack> as Iterator;FilterIterMut<Stack,Q,F> as Iterator
//@ rewrite Stack: DerefMut<Target = TreeIterMut<'a, B, Key, Value>>, Node<B, Key, Value>: 'a, ==> Stack: StackMut<L = slice::IterMut<'a, (Key, Value)>, I = slice::IterMut<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a,
//@ rewrite Box<TreeIterMut<'a, B, Key, Value>> ==> TreeIterMut<'a, B, Key, Value>
//@ rewrite fn next<Q>(&mut self, filter: &mut impl SpatialFilter<B, Q>) ==> fn next<Q, F: SpatialFilter<B, Q>>(&mut self, filter: &mut F)
//@ rewrite fn next(&mut self) -> Option<Self::Item> ==> fn next_item(&mut self) -> Option<(&'a Key, &'a mut Value)>
//@ rewrite type Item = (&'a Key, &'a mut Value); ==>
//@ rewrite self.stack[nz_level].find($f) ==> next_where(self.stack.st_mut().index_mut(nz_level), $f)
//@ rewrite self.stack[nz_level] = $e; ==> *self.stack.st_mut().index_mut(nz_level) = $e;
//@ rewrite self.stack[nz_level] ==> self.stack.st_mut().index_mut(nz_level)
//@ rewrite self.stack.leaf_mut().find($f) ==> next_where(self.stack.st_mut().leaf_mut(), $f)
//@ rewrite stack[level] = $e; ==> *stack.index_mut(level) = $e;
//@ rewrite self.stack.leaf_mut() ==> self.stack.st_mut().leaf_mut()
//@ rewrite self.stack.len() ==> self.stack.st().len()
//@ item IterMut
attr #[verifier::reject_recursive_types(Stack)]
//@ item FilterIterMut
attr #[verifier::reject_recursive_types(Stack)]
attr #[verifier::reject_recursive_types(Q)]
attr #[verifier::reject_recursive_types(F)]
//@ item IterMut<Stack> as Iterator
header <'a, B, Key, Value, Stack> IterMut<Stack> where Stack: StackMut<L = slice::IterMut<'a, (Key, Value)>, I = slice::IterMut<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a
//@ item FilterIterMut<Stack,Q,F> as Iterator
header <'a, B, Key, Value, Stack, Q, F> FilterIterMut<Stack, Q, F> where Stack: StackMut<L = slice::IterMut<'a, (Key, Value)>, I = slice::IterMut<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a, Key: Borrow<Q>, Q: ?Sized, F: SpatialFilter<B, Q>
//@ fn IterMut::new_empty
    ensures res.stack@.len() == 0
//@ fn IterMut::new
    requires fits(root.node.children, root.level as nat, root.alloc.children.cap as nat)
    ensures
        stack_of(res.stack@), rooted_mut(res.stack@, *old(root.node), *final(root.node), root.level), opens(res.stack@, *old(root.node), *final(root.node), root.level),
        res.wf(), res.left() == flat(old(root.node).children, root.level as nat),
//@ start
        broadcast use iter_mut_state;
//@ rewrite (0..$e).map($f) ==> mapped(0..$e, $f)
//@ closure 0 | _i: usize | -> (r: slice::IterMut<'a, Node<B, Key, Value>>)
    ensures r.remaining().len() == 0
//@ before match root.into_children_mut()
        let ghost s0 = stack@;
        let ghost l0 = root.level;
        proof { assert forall|i: int| 1 <= i < s0.len() implies mnodes(#[trigger] pm(s0, i), i).len() == 0 by { assert(inn(s0[i]).remaining().len() == 0); } }
//@ tail
        proof {
            lemma_new_mut(s0, stack@, *old(root.node), *final(root.node), l0);
            lemma_rooted_mut::<B, Key, Value, Key, NoFilter>(stack@, *old(root.node), *final(root.node), l0, NoFilter);
            assert(pfit(now(stack@), root.alloc.children.cap as nat));
        }
//@ fn IterMut::next
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires
        old(filter).flaw(), stack_of(old(self).stack.stk()), exists|cap: nat| #[trigger] pfit(now(old(self).stack.stk()), cap), pkept::<B, Key, Value, Q, F>(now(old(self).stack.stk()), *old(filter)),
    ensures
        *final(filter) == *old(filter),
        stack_of(final(self).stack.stk()), forall|cap: nat| #[trigger] pfit(now(old(self).stack.stk()), cap) ==> pfit(now(final(self).stack.stk()), cap), pkept::<B, Key, Value, Q, F>(now(final(self).stack.stk()), *old(filter)),
        res is None ==> done::<B, Key, Value, Q, F>(*old(filter), old(self).stack.stk(), final(self).stack.stk()),
        res is Some ==> took::<B, Key, Value, Q, F>(*old(filter), old(self).stack.stk(), final(self).stack.stk(), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ start
        broadcast use iter_mut_state;
        let ghost f0 = *filter;
        let ghost s0 = self.stack.stk();
        let ghost cap = choose|cap: nat| #[trigger] pfit(now(s0), cap);
        proof { lemma_went_refl::<B, Key, Value, Q, F>(f0, s0, cap); }
//@ loop 0
            invariant
                *filter == f0, f0.flaw(), s0 == old(self).stack.stk(), stack_of(self.stack.stk()), level <= self.stack.stk().len() == s0.len(),
                pfit(now(s0), cap), went::<B, Key, Value, Q, F>(f0, s0, self.stack.stk()), blank(now(self.stack.stk()), level as int),
            ensures level == self.stack.stk().len()
            decreases pwt(now(self.stack.stk()), self.stack.stk().len()), self.stack.stk().len() - level
//@ loopstart 0
            broadcast use iter_mut_state;
            let ghost s1 = self.stack.stk();
//%permit             proof { assert forall|i: int| 0 <= i < rmm(lf(s1[0])).len() implies f0.may_test((*#[trigger] rmm(lf(s1[0]))[i]).0.borrow_spec()) by { assert(*rmm(lf(s1[0]))[i] == now(s1).leaf[i]); } }
//@ before level -= 1;
                    let ghost s2 = self.stack.stk();
                    let ghost ll = level as int;
                    let ghost k = mnodes(s1, ll).len() - mnodes(s2, ll).len() - 1;
                    proof { assert(*node == now(s1).lv[ll][k]); assert(fits(now(s1).lv[ll][k].children, (ll - 1) as nat, cap)); }
//@ after *self.stack.st_mut().index_mut(nz_level) = unsafe { node.inner_children_mut() }.iter_mut();
                        proof {
                            let t = self.stack.stk();
                            assert(now(t).lv[ll] =~= now(s1).lv[ll].skip(k + 1));
                            assert(then(t).lv[ll] =~= then(s1).lv[ll].skip(k + 1));
                            assert forall|i: int| 1 <= i < s1.len() && i != ll && i != ll - 1 implies #[trigger] now(t).lv[i] == now(s1).lv[i] && then(t).lv[i] == then(s1).lv[i] by { assert(t[i] == s1[i]); }
                            assert(t[0] == s1[0]); assert(now(t).lv[ll - 1] =~= inner(now(s1).lv[ll][k].children)@); assert(then(t).lv[ll - 1] =~= inner(then(s1).lv[ll][k].children)@);
                            assert(stepped(now(s1), now(t), ll, k));
                            assert(stepped(then(s1), then(t), ll, k));
                            lemma_descend_mut::<B, Key, Value, Q, F>(f0, s0, s1, t, ll, k, cap);
                        }
//@ after *self.stack.st_mut().leaf_mut() = unsafe { node.leaf_children_mut() }.iter_mut();
                        proof {
                            let t = self.stack.stk();
                            assert(now(t).lv[ll] =~= now(s1).lv[ll].skip(k + 1));
                            assert(then(t).lv[ll] =~= then(s1).lv[ll].skip(k + 1));
                            assert forall|i: int| 1 <= i < s1.len() && i != ll && i != ll - 1 implies #[trigger] now(t).lv[i] == now(s1).lv[i] && then(t).lv[i] == then(s1).lv[i] by { assert(t[i] == s1[i]); }
                            assert(now(t).leaf =~= leaf(now(s1).lv[ll][k].children)@); assert(then(t).leaf =~= leaf(then(s1).lv[ll][k].children)@);
                            assert(stepped(now(s1), now(t), ll, k));
                            assert(stepped(then(s1), then(t), ll, k));
                            lemma_descend_mut::<B, Key, Value, Q, F>(f0, s0, s1, t, ll, k, cap);
                        }
//@ before #1 level += 1;
                    proof { lemma_passed_mut::<B, Key, Value, Q, F>(f0, s0, s1, self.stack.stk(), level as int, cap); }
//@ before #2 level += 1;
                proof {
                    let t = self.stack.stk();
                    let n = now(s1).leaf.len() as int;
                    assert forall|i: int| 1 <= i < s1.len() implies #[trigger] now(t).lv[i] == now(s1).lv[i] && then(t).lv[i] == then(s1).lv[i] by { assert(t[i] == s1[i]); }
                    assert(now(t).leaf =~= now(s1).leaf.skip(n) && then(t).leaf =~= then(s1).leaf.skip(n));
                }
                proof { lemma_passed_leaf_mut::<B, Key, Value, Q, F>(f0, s0, s1, self.stack.stk(), cap); }
//@ rewrite return Some((&entry.0, &mut entry.1)); ==> let taken = Some((&entry.0, &mut entry.1)); return taken;
//@ before return taken;
                proof {
                    let t = self.stack.stk();
                    let n = now(s1).leaf.len() - now(t).leaf.len();
                    assert forall|i: int| 1 <= i < s1.len() implies #[trigger] now(t).lv[i] == now(s1).lv[i] && then(t).lv[i] == then(s1).lv[i] by { assert(t[i] == s1[i]); }
                    assert(now(t).leaf =~= now(s1).leaf.skip(n) && then(t).leaf =~= then(s1).leaf.skip(n));
                    lemma_taken_leaf_mut::<B, Key, Value, Q, F>(f0, s0, s1, t, *taken->Some_0.0, *taken->Some_0.1, *final(taken->Some_0.1), cap);
                }
//@ tail
        proof { lemma_done::<B, Key, Value, Q, F>(f0, s0, self.stack.stk()); }
//@ closure 0 | node: &Node<B, Key, Value> | -> (r: bool)
//%permit     ensures r == f0.bounds_ok(&node.bounds)
//%!permit     ensures f0.bounds_ok(&node.bounds) ==> r
//@ closure 1 | e: &(Key, Value) | -> (r: bool)
//%permit     requires f0.may_test(e.0.borrow_spec())
    ensures r == f0.key_ok(e.0.borrow_spec())
//@ fn IterMut<Stack> as Iterator::next_item
    requires old(self).wf()
    ensures
        final(self).wf(),
        res is None ==> done::<B, Key, Value, Key, NoFilter>(NoFilter, old(self).stack.stk(), final(self).stack.stk()) && old(self).left().len() == 0,
        res is Some ==> old(self).left().len() > 0 && final(self).left() == old(self).left().skip(1)
            && took::<B, Key, Value, Key, NoFilter>(NoFilter, old(self).stack.stk(), final(self).stack.stk(), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ start
        let ghost s0 = self.stack.stk();
        proof { lemma_pkept_all(s0); }
//@ tailbind r
        proof {
            lemma_none_all::<B, Key, Value>();
            if r is Some {
                let (p, q) = (now(s0), now(self.stack.stk()));
                let x = pall(p).take(gap(p, q) - 1);
                assert(none_ok::<B, Key, Value, Key, NoFilter>(NoFilter, x));
                assert(x.len() == 0);
                assert(pall(q) =~= pall(p).skip(1));
            }
        }
//@ fn FilterIterMut::new
    requires fits(root.node.children, root.level as nat, root.alloc.children.cap as nat), filter.flaw(), keeps::<B, Key, Value, Q, F>(filter, *root.node, root.level as nat), permits::<B, Key, Value, Q, F>(filter, *root.node, root.level as nat)
    ensures
        res.wf(), res.filter == filter,
        rooted_mut(res.iter.stack@, *old(root.node), *final(root.node), root.level) && opens(res.iter.stack@, *old(root.node), *final(root.node), root.level)
            || res.iter.stack@.len() == 0 && *final(root.node) == *old(root.node) && none_ok::<B, Key, Value, Q, F>(filter, flat(old(root.node).children, root.level as nat)),
//@ start
        let ghost cap = root.alloc.children.cap as nat;
        let ghost n0 = *root.node;
        let ghost l0 = root.level;
        proof { lemma_keeps_none::<B, Key, Value, Q, F>(filter, n0, l0 as nat); }
//@ tailbind r
        proof { lemma_opened::<B, Key, Value, Q, F>(filter, n0, *final(root.node), l0, cap, r.iter.stack@); }
//@ fn FilterIterMut<Stack,Q,F> as Iterator::next_item
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).filter == old(self).filter,
        res is None ==> done::<B, Key, Value, Q, F>(old(self).filter, old(self).iter.stack.stk(), final(self).iter.stack.stk()),
        res is Some ==> took::<B, Key, Value, Q, F>(old(self).filter, old(self).iter.stack.stk(), final(self).iter.stack.stk(), *res->Some_0.0, *res->Some_0.1, *final(res->Some_0.1)),
//@ text
pub uninterp spec fn rmm<'a, T>(it: slice::IterMut<'a, T>) -> Seq<&'a mut T>;
/// What a slice iterator has left is determined by its state.
pub broadcast axiom fn iter_mut_state<'a, T>(it: slice::IterMut<'a, T>)
    ensures #[trigger] it.remaining() == rmm(it);
/// what the items are now
pub open spec fn curs<'a, T>(it: slice::IterMut<'a, T>) -> Seq<T> { Seq::new(rmm(it).len(), |i: int| *rmm(it)[i]) }
/// what they become
#[verifier::prophetic]
pub open spec fn fins<'a, T>(it: slice::IterMut<'a, T>) -> Seq<T> { Seq::new(rmm(it).len(), |i: int| *final(rmm(it)[i])) }

/// it.find(f): the next item f accepts; those passed over are left as they are
fn next_where<'a, T, F: FnMut(&T) -> bool>(it: &mut slice::IterMut<'a, T>, f: F) -> (r: Option<&'a mut T>)
    requires forall|j: int| 0 <= j < rmm(*old(it)).len() ==> call_requires(f, (&*#[trigger] rmm(*old(it))[j],))
    ensures
        r is None ==> rmm(*final(it)).len() == 0 && passed(f, rmm(*old(it)), rmm(*old(it)).len() as int),
        r is Some ==> ({
            let k = rmm(*old(it)).len() - rmm(*final(it)).len() - 1;
            0 <= k && *r->Some_0 == *rmm(*old(it))[k] && *final(r->Some_0) == *final(rmm(*old(it))[k]) && rmm(*final(it)) =~= rmm(*old(it)).skip(k + 1) && call_ensures(f, (&*rmm(*old(it))[k],), true) && passed(f, rmm(*old(it)), k)
        }),
{
    broadcast use iter_mut_state;
    let mut g = f;
    let ghost all = rmm(*it);
    let ghost mut k = 0int;
    loop
        invariant
            g == f, 0 <= k <= all.len(), rmm(*it) =~= all.skip(k), passed(f, all, k), forall|j: int| 0 <= j < all.len() ==> call_requires(f, (&*#[trigger] all[j],)), all == rmm(*old(it)),
        decreases all.len() - k
    {
        broadcast use iter_mut_state;
        match it.next() {
            None => { return None; }
            Some(x) => {
                proof { assert(x == all[k]); }
                if g(&*x) { return Some(x); }
                proof { k = k + 1; }
            }
        }
    }
}
/// f rejects the first k items, and they stay as they are
#[verifier::prophetic]
pub open spec fn passed<'a, T, F: FnMut(&T) -> bool>(f: F, s: Seq<&'a mut T>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> call_ensures(f, (&*#[trigger] s[j],), false) && *final(s[j]) == *s[j]
}

// ---- what a stack of iterators has left
/// the entries, and per index the nodes (at index l they are at level l - 1)
#[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub ghost struct Pending<B, K, V> { pub leaf: Seq<(K, V)>, pub lv: Seq<Seq<Node<B, K, V>>> }
pub type Muts<'a, B, K, V> = Seq<Entry<slice::IterMut<'a, (K, V)>, slice::IterMut<'a, Node<B, K, V>>>>;
pub open spec fn pm<'a, B, K, V>(s: Muts<'a, B, K, V>, i: int) -> Muts<'a, B, K, V> { s }
pub open spec fn mnodes<'a, B, K, V>(s: Muts<'a, B, K, V>, l: int) -> Seq<Node<B, K, V>> { curs(inn(s[l])) }
/// as it is now
pub open spec fn now<'a, B, K, V>(s: Muts<'a, B, K, V>) -> Pending<B, K, V> { Pending { leaf: curs(lf(s[0])), lv: Seq::new(s.len(), |l: int| curs(inn(s[l]))) } }
/// as it becomes
#[verifier::prophetic]
pub open spec fn then<'a, B, K, V>(s: Muts<'a, B, K, V>) -> Pending<B, K, V> { Pending { leaf: fins(lf(s[0])), lv: Seq::new(s.len(), |l: int| fins(inn(s[l]))) } }
pub open spec fn pbelow<B, K, V>(p: Pending<B, K, V>, n: nat) -> Seq<(K, V)>
    decreases n
{
    if n == 0 { Seq::empty() } else if n == 1 { p.leaf } else { pbelow(p, (n - 1) as nat) + flats(p.lv[n - 1], (n - 2) as nat) }
}
/// the entries
pub open spec fn pall<B, K, V>(p: Pending<B, K, V>) -> Seq<(K, V)> { pbelow(p, p.lv.len()) }
pub open spec fn pfit<B, K, V>(p: Pending<B, K, V>, cap: nat) -> bool {
    forall|l: int, i: int| 1 <= l < p.lv.len() && 0 <= i < p.lv[l].len() ==> fits((#[trigger] p.lv[l][i]).children, (l - 1) as nat, cap)
}
pub open spec fn pkept<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(p: Pending<B, K, V>, f: F) -> bool {
    &&& forall|l: int, i: int| 1 <= l < p.lv.len() && 0 <= i < p.lv[l].len() ==> keeps::<B, K, V, Q, F>(f, #[trigger] p.lv[l][i], (l - 1) as nat) && permits::<B, K, V, Q, F>(f, p.lv[l][i], (l - 1) as nat)
    &&& p.lv.len() > 0 ==> may_all::<B, K, V, Q, F>(f, p.leaf)
}
pub open spec fn pwt<B, K, V>(p: Pending<B, K, V>, n: nat) -> nat
    decreases n
{
    if n <= 1 { 0 } else { pwt(p, (n - 1) as nat) + wts(p.lv[n - 1], (n - 2) as nat) }
}
/// nothing is left below index l
pub open spec fn blank<B, K, V>(p: Pending<B, K, V>, l: int) -> bool {
    (l > 0 ==> p.leaf.len() == 0) && forall|i: int| 1 <= i < l ==> (#[trigger] p.lv[i]).len() == 0
}
pub open spec fn same_keys_at<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == t[i].0 }
pub open spec fn likes<B, K, V>(s: Seq<Node<B, K, V>>, t: Seq<Node<B, K, V>>, l: nat) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> like(#[trigger] s[i], t[i], l) }
/// q is p but for values
pub open spec fn alike<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>) -> bool {
    &&& p.lv.len() == q.lv.len() && (p.lv.len() > 0 ==> same_keys_at(p.leaf, q.leaf))
    &&& forall|l: int| 1 <= l < p.lv.len() ==> likes(#[trigger] p.lv[l], q.lv[l], (l - 1) as nat)
}
/// no entry is accepted
pub open spec fn none_ok<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> !f.key_ok((#[trigger] s[i]).0.borrow_spec()) }
/// how many entries of p come before those of q
pub open spec fn gap<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>) -> int { pall(p).len() - pall(q).len() }
/// From s to t, only entries that are not accepted are left behind, as they are.
#[verifier::prophetic]
pub open spec fn went<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>) -> bool {
    let (p, q) = (now(s), now(t));
    let x = pall(p).take(gap(p, q));
    &&& s.len() == t.len() && gap(p, q) >= 0
    &&& pall(p) == x + pall(q) && pall(then(s)) == x + pall(then(t)) && none_ok::<B, K, V, Q, F>(f, x)
    &&& alike(q, then(t)) ==> alike(p, then(s))
    &&& forall|cap: nat| #[trigger] pfit(p, cap) ==> pfit(q, cap)
    &&& pkept::<B, K, V, Q, F>(p, f) && pkept::<B, K, V, Q, F>(q, f)
}
/// From s to t, every entry is left behind as it is, and none is accepted.
#[verifier::prophetic]
pub open spec fn done<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>) -> bool {
    &&& pall(then(s)) == pall(now(s)) && alike(now(s), then(s)) && none_ok::<B, K, V, Q, F>(f, pall(now(s)))
    &&& pall(now(t)).len() == 0
}
/// From s to t, the next accepted entry is taken, and its value becomes w; those before it stay as they are.
#[verifier::prophetic]
pub open spec fn took<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, key: K, v: V, w: V) -> bool {
    let (p, q) = (now(s), now(t));
    let n = gap(p, q) - 1;
    let x = pall(p).take(n);
    &&& n >= 0 && pall(p) == x + (seq![(key, v)] + pall(q)) && pall(then(s)) == x + (seq![(key, w)] + pall(then(t)))
    &&& none_ok::<B, K, V, Q, F>(f, x) && f.key_ok(key.borrow_spec())
    &&& alike(q, then(t)) ==> alike(p, then(s))
}
pub proof fn lemma_done<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>)
    requires went::<B, K, V, Q, F>(f, s, t), blank(now(t), t.len() as int), s.len() == t.len()
    ensures done::<B, K, V, Q, F>(f, s, t)
{
    let (p, q, h) = (now(t), now(t), then(t));
    if t.len() > 0 { assert(blank(h, t.len() as int)) by { assert forall|i: int| 1 <= i < t.len() implies (#[trigger] h.lv[i]).len() == 0 by { assert(q.lv[i].len() == 0); } } }
    lemma_pblank(q, t.len());
    lemma_pblank(h, t.len());
    assert forall|m: int| 1 <= m < q.lv.len() implies likes(#[trigger] q.lv[m], h.lv[m], (m - 1) as nat) by { assert(q.lv[m].len() == 0); assert(h.lv[m].len() == 0); }
    assert(alike(q, h));
    let x = pall(now(s)).take(gap(now(s), q));
    assert(pall(now(s)) =~= x && pall(then(s)) =~= x);
}
/// NoFilter keeps everything
pub proof fn lemma_pkept_all<'a, B, K, V>(s: Muts<'a, B, K, V>)
    ensures pkept::<B, K, V, K, NoFilter>(now(s), NoFilter)
{
    assert forall|l: int, i: int| 1 <= l < now(s).lv.len() && 0 <= i < now(s).lv[l].len() implies keeps::<B, K, V, K, NoFilter>(NoFilter, #[trigger] now(s).lv[l][i], (l - 1) as nat) && permits::<B, K, V, K, NoFilter>(NoFilter, now(s).lv[l][i], (l - 1) as nat) by { lemma_keeps_all::<B, K, V>(now(s).lv[l][i], (l - 1) as nat); }
}
pub proof fn lemma_none_all<B, K, V>()
    ensures forall|x: Seq<(K, V)>| #[trigger] none_ok::<B, K, V, K, NoFilter>(NoFilter, x) ==> x.len() == 0
{
    assert forall|x: Seq<(K, V)>| #[trigger] none_ok::<B, K, V, K, NoFilter>(NoFilter, x) implies x.len() == 0 by { if x.len() > 0 { assert(!SpatialFilter::<B, K>::key_ok(&NoFilter, x[0].0.borrow_spec())); } }
}
/// Nodes whose bounds are rejected have no entry that is accepted.
pub proof fn lemma_keeps_none<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n: Node<B, K, V>, l: nat)
    requires keeps::<B, K, V, Q, F>(f, n, l)
    ensures !f.bounds_ok(&n.bounds) || flat(n.children, l).len() == 0 ==> none_ok::<B, K, V, Q, F>(f, flat(n.children, l))
{
}
pub proof fn lemma_opened<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize, cap: nat, t: Muts<'a, B, K, V>)
    requires fits(n0.children, l as nat, cap), keeps::<B, K, V, Q, F>(f, n0, l as nat), t.len() > 0 ==> permits_in::<B, K, V, Q, F>(f, n0, l as nat), rooted_mut(t, n0, n1, l) || t.len() == 0
    ensures exists|cap: nat| #[trigger] pfit(now(t), cap), pkept::<B, K, V, Q, F>(now(t), f)
{
    if t.len() == 0 { assert(pfit(now(t), cap)); } else { lemma_rooted_mut::<B, K, V, Q, F>(t, n0, n1, l, f); assert(pfit(now(t), cap)); }
}
impl<'a, B, Key, Value, Stack> IterMut<Stack>
where Stack: StackMut<L = slice::IterMut<'a, (Key, Value)>, I = slice::IterMut<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a {
    pub open spec fn wf(&self) -> bool { stack_of(self.stack.stk()) && exists|cap: nat| #[trigger] pfit(now(self.stack.stk()), cap) }
    /// the entries to come
    pub open spec fn left(&self) -> Seq<(Key, Value)> { pall(now(self.stack.stk())) }
}
impl<'a, B, Key, Value, Stack, Q, F> FilterIterMut<Stack, Q, F>
where Stack: StackMut<L = slice::IterMut<'a, (Key, Value)>, I = slice::IterMut<'a, Node<B, Key, Value>>>, Node<B, Key, Value>: 'a, Key: Borrow<Q>, Q: ?Sized, F: SpatialFilter<B, Q> {
    pub open spec fn wf(&self) -> bool { self.iter.wf() && self.filter.flaw() && pkept::<B, Key, Value, Q, F>(now(self.iter.stack.stk()), self.filter) }
    /// the entries to come
    pub open spec fn left(&self) -> Seq<(Key, Value)> { sel::<B, Key, Value, Q, F>(self.filter, pall(now(self.iter.stack.stk()))) }
}
/// the stack of a new iterator over a node that is n0 and becomes n1
#[verifier::prophetic]
pub open spec fn rooted_mut<'a, B, K, V>(t: Muts<'a, B, K, V>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize) -> bool {
    &&& t.len() == l + 1
    &&& root_of(now(t), n0, l) && root_of(then(t), n1, l)
    &&& n1.bounds == n0.bounds && kind(n1.children, l as nat)
    &&& l == 0 ==> leaf(n0.children).cap() == leaf(n1.children).cap()
    &&& l > 0 ==> inner(n0.children).cap() == inner(n1.children).cap()
}
/// the entries of the stack are those of the node
#[verifier::prophetic]
pub open spec fn opens<'a, B, K, V>(t: Muts<'a, B, K, V>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize) -> bool {
    pall(now(t)) == flat(n0.children, l as nat) && pall(then(t)) == flat(n1.children, l as nat) && (alike(now(t), then(t)) ==> like(n0, n1, l as nat))
}
pub open spec fn root_of<B, K, V>(p: Pending<B, K, V>, n: Node<B, K, V>, l: usize) -> bool {
    &&& p.lv.len() == l + 1
    &&& l == 0 ==> p.leaf == leaf(n.children)@
    &&& l > 0 ==> blank(p, l as int) && p.lv[l as int] == inner(n.children)@
}
/// q is p after the nodes up to and including that at k are gone from index l, with the children of that node below
pub open spec fn stepped<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, l: int, k: int) -> bool {
    &&& 1 <= l < p.lv.len() == q.lv.len() && 0 <= k < p.lv[l].len() && q.lv[l] == p.lv[l].skip(k + 1)
    &&& forall|i: int| 1 <= i < p.lv.len() && i != l && i != l - 1 ==> #[trigger] q.lv[i] == p.lv[i]
    &&& if l == 1 { q.leaf == leaf(p.lv[l][k].children)@ } else { q.leaf == p.leaf && q.lv[l - 1] == inner(p.lv[l][k].children)@ }
}
pub proof fn lemma_pblank<B, K, V>(p: Pending<B, K, V>, n: nat)
    requires blank(p, n as int)
    ensures pbelow(p, n) =~= Seq::empty()
    decreases n
{
    if n > 1 { lemma_pblank(p, (n - 1) as nat); assert(p.lv[n - 1].len() == 0); }
}
pub proof fn lemma_pup<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, x: Seq<(K, V)>, m: nat, n: nat)
    requires 1 <= m <= n <= p.lv.len() == q.lv.len(), pbelow(p, m) == x + pbelow(q, m), forall|i: int| m <= i < n ==> #[trigger] q.lv[i] == p.lv[i]
    ensures pbelow(p, n) == x + pbelow(q, n)
    decreases n - m
{
    if m < n {
        lemma_pup(p, q, x, m, (n - 1) as nat);
        assert(q.lv[n - 1] == p.lv[n - 1]);
        assert(pbelow(p, n) =~= x + pbelow(q, n));
    }
}
pub proof fn lemma_stepped<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, l: int, k: int)
    requires stepped(p, q, l, k), blank(p, l)
    ensures pall(p) == flats(p.lv[l].take(k), (l - 1) as nat) + pall(q), blank(q, l - 1)
{
    let s = p.lv[l];
    let lw = (l - 1) as nat;
    lemma_pblank(p, l as nat);
    assert(blank(q, l - 1)) by { assert forall|i: int| 1 <= i < l - 1 implies (#[trigger] q.lv[i]).len() == 0 by { assert(p.lv[i].len() == 0); } }
    lemma_flats_cut(s, k, lw);
    if l == 1 {
        assert(pbelow(q, 1) == flat(s[k].children, 0));
    } else {
        lemma_pblank(q, lw);
        assert(pbelow(q, l as nat) == pbelow(q, lw) + flats(q.lv[l - 1], (l - 2) as nat));
        assert(pbelow(q, l as nat) =~= flat(s[k].children, lw));
    }
    assert(pbelow(p, (l + 1) as nat) == pbelow(p, l as nat) + flats(p.lv[l], lw));
    assert(pbelow(q, (l + 1) as nat) == pbelow(q, l as nat) + flats(q.lv[l], lw));
    assert(pbelow(p, (l + 1) as nat) =~= flats(s.take(k), lw) + pbelow(q, (l + 1) as nat));
    lemma_pup(p, q, flats(s.take(k), lw), (l + 1) as nat, p.lv.len());
}
pub proof fn lemma_flats_cut<B, K, V>(s: Seq<Node<B, K, V>>, k: int, l: nat)
    requires 0 <= k < s.len()
    ensures flats(s, l) =~= flats(s.take(k), l) + (flat(s[k].children, l) + flats(s.skip(k + 1), l))
    decreases s.len()
{
    if k == s.len() - 1 {
        assert(s.drop_last() =~= s.take(k));
        assert(s.skip(k + 1) =~= Seq::empty());
    } else {
        lemma_flats_cut(s.drop_last(), k, l);
        assert(s.drop_last().take(k) =~= s.take(k));
        assert(s.skip(k + 1).drop_last() =~= s.drop_last().skip(k + 1));
    }
}
/// q is p without the nodes at index l
pub open spec fn cleared<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, l: int) -> bool {
    &&& 1 <= l < p.lv.len() == q.lv.len() && q.lv[l].len() == 0 && q.leaf == p.leaf
    &&& forall|i: int| 1 <= i < p.lv.len() && i != l ==> #[trigger] q.lv[i] == p.lv[i]
}
pub proof fn lemma_cleared<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, l: int)
    requires cleared(p, q, l), blank(p, l)
    ensures pall(p) == flats(p.lv[l], (l - 1) as nat) + pall(q), blank(q, l + 1)
{
    assert forall|i: int| 1 <= i < l + 1 implies (#[trigger] q.lv[i]).len() == 0 by { if i < l { assert(p.lv[i].len() == 0); } }
    lemma_pblank(p, l as nat);
    lemma_pblank(q, (l + 1) as nat);
    assert(pbelow(p, (l + 1) as nat) =~= flats(p.lv[l], (l - 1) as nat) + pbelow(q, (l + 1) as nat));
    lemma_pup(p, q, flats(p.lv[l], (l - 1) as nat), (l + 1) as nat, p.lv.len());
}
/// no entry of rejected nodes is accepted
pub proof fn lemma_none_ok<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Seq<Node<B, K, V>>, l: nat)
    requires forall|i: int| 0 <= i < s.len() ==> keeps::<B, K, V, Q, F>(f, #[trigger] s[i], l) && !f.bounds_ok(&s[i].bounds)
    ensures none_ok::<B, K, V, Q, F>(f, flats(s, l))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies keeps::<B, K, V, Q, F>(f, #[trigger] t[i], l) && !f.bounds_ok(&t[i].bounds) by { assert(t[i] == s[i]); }
        lemma_none_ok::<B, K, V, Q, F>(f, t, l);
        let x = flat(s.last().children, l);
        assert(keeps::<B, K, V, Q, F>(f, s[s.len() - 1], l));
        assert forall|i: int| 0 <= i < flats(s, l).len() implies !f.key_ok((#[trigger] flats(s, l)[i]).0.borrow_spec()) by {
            if i >= flats(t, l).len() { assert(flats(s, l)[i] == x[i - flats(t, l).len()]); } else { assert(flats(s, l)[i] == flats(t, l)[i]); }
        }
    }
}
pub proof fn lemma_went_refl<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Muts<'a, B, K, V>, cap: nat)
    requires pfit(now(s), cap), pkept::<B, K, V, Q, F>(now(s), f)
    ensures went::<B, K, V, Q, F>(f, s, s)
{
    assert(pall(now(s)).take(0) =~= Seq::empty());
    assert(pall(now(s)) =~= pall(now(s)).take(0) + pall(now(s)));
    assert(pall(then(s)) =~= pall(now(s)).take(0) + pall(then(s)));
}
pub proof fn lemma_went_trans<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, r: Muts<'a, B, K, V>, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>)
    requires went::<B, K, V, Q, F>(f, r, s), went::<B, K, V, Q, F>(f, s, t)
    ensures went::<B, K, V, Q, F>(f, r, t)
{
    let (o, p, q) = (now(r), now(s), now(t));
    let (x, y) = (pall(o).take(gap(o, p)), pall(p).take(gap(p, q)));
    assert(pall(o) =~= (x + y) + pall(q));
    assert(pall(o).take(gap(o, q)) =~= x + y);
    assert(pall(then(r)) =~= (x + y) + pall(then(t)));
    assert forall|i: int| 0 <= i < (x + y).len() implies !f.key_ok((#[trigger] (x + y)[i]).0.borrow_spec()) by { if i < x.len() { assert((x + y)[i] == x[i]); } else { assert((x + y)[i] == y[i - x.len()]); } }
}
pub proof fn lemma_like_refls<B, K, V>(s: Seq<Node<B, K, V>>, l: nat, cap: nat)
    requires forall|i: int| 0 <= i < s.len() ==> fits((#[trigger] s[i]).children, l, cap)
    ensures likes(s, s, l)
{
    assert forall|i: int| 0 <= i < s.len() implies like(#[trigger] s[i], s[i], l) by { lemma_like_refl(s[i], l, cap); }
}
/// Going down into the node at k, past rejected nodes.
pub proof fn lemma_descend_mut<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Muts<'a, B, K, V>, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, l: int, k: int, cap: nat)
    requires
        went::<B, K, V, Q, F>(f, s0, s), pfit(now(s0), cap), blank(now(s), l), s.len() == t.len(),
        stepped(now(s), now(t), l, k), stepped(then(s), then(t), l, k),
        forall|j: int| 0 <= j < k ==> !f.bounds_ok(&(#[trigger] now(s).lv[l][j]).bounds) && then(s).lv[l][j] == now(s).lv[l][j],
        turned(now(s).lv[l][k], then(s).lv[l][k], (l - 1) as nat),
//%permit         f.bounds_ok(&now(s).lv[l][k].bounds),
    ensures went::<B, K, V, Q, F>(f, s0, t), blank(now(t), l - 1), pwt(now(t), t.len()) < pwt(now(s), s.len())
{
    let (p, q) = (now(s), now(t));
    let (g, h) = (then(s), then(t));
    let lw = (l - 1) as nat;
    let x = flats(p.lv[l].take(k), lw);
    lemma_stepped(p, q, l, k);
    assert(blank(g, l)) by { assert forall|i: int| 1 <= i < l implies (#[trigger] g.lv[i]).len() == 0 by { assert(p.lv[i].len() == 0); } }
    lemma_stepped(g, h, l, k);
    assert(g.lv[l].take(k) =~= p.lv[l].take(k)) by { assert forall|j: int| 0 <= j < k implies g.lv[l].take(k)[j] == p.lv[l].take(k)[j] by { assert(g.lv[l][j] == p.lv[l][j]); } }
    assert(pall(p).take(gap(p, q)) =~= x);
    assert forall|j: int| 0 <= j < k implies keeps::<B, K, V, Q, F>(f, #[trigger] p.lv[l].take(k)[j], lw) && !f.bounds_ok(&p.lv[l].take(k)[j].bounds) by { assert(p.lv[l].take(k)[j] == p.lv[l][j]); }
    lemma_none_ok::<B, K, V, Q, F>(f, p.lv[l].take(k), lw);
    assert forall|c: nat| #[trigger] pfit(p, c) implies pfit(q, c) by {
        assert(fits(p.lv[l][k].children, lw, c));
        assert forall|m: int, i: int| 1 <= m < q.lv.len() && 0 <= i < q.lv[m].len() implies fits((#[trigger] q.lv[m][i]).children, (m - 1) as nat, c) by {
            if m == l { assert(q.lv[m][i] == p.lv[l][i + k + 1]); } else if m != l - 1 { assert(q.lv[m][i] == p.lv[m][i]); }
        }
    }
    assert(keeps::<B, K, V, Q, F>(f, p.lv[l][k], lw) && permits::<B, K, V, Q, F>(f, p.lv[l][k], lw));
    assert(permits_in::<B, K, V, Q, F>(f, p.lv[l][k], lw));
    assert forall|m: int, i: int| 1 <= m < q.lv.len() && 0 <= i < q.lv[m].len() implies keeps::<B, K, V, Q, F>(f, #[trigger] q.lv[m][i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, q.lv[m][i], (m - 1) as nat) by {
        if m == l { assert(q.lv[m][i] == p.lv[l][i + k + 1]); } else if m != l - 1 { assert(q.lv[m][i] == p.lv[m][i]); }
    }
    if alike(q, h) {
        assert(likes(q.lv[l], h.lv[l], lw));
        if l > 1 { assert(likes(q.lv[l - 1], h.lv[l - 1], (l - 2) as nat)); }
        assert(like(p.lv[l][k], g.lv[l][k], lw));
        assert forall|m: int| 1 <= m < p.lv.len() implies likes(#[trigger] p.lv[m], g.lv[m], (m - 1) as nat) by {
            if m == l {
                assert forall|i: int| 0 <= i < p.lv[l].len() implies like(#[trigger] p.lv[l][i], g.lv[l][i], lw) by {
                    if i < k { assert(fits(p.lv[l][i].children, lw, cap)); lemma_like_refl(p.lv[l][i], lw, cap); } else if i > k { assert(like(q.lv[l][i - k - 1], h.lv[l][i - k - 1], lw)); }
                }
            } else if m == l - 1 { assert(p.lv[m].len() == 0); } else { assert(likes(q.lv[m], h.lv[m], (m - 1) as nat)); }
        }
        assert(alike(p, g));
    }
    assert(went::<B, K, V, Q, F>(f, s, t));
    lemma_went_trans::<B, K, V, Q, F>(f, s0, s, t);
    lemma_pwt(p, q, l, k);
}
/// n1 is n0 with other children of the same kind
pub open spec fn turned<B, K, V>(n0: Node<B, K, V>, n1: Node<B, K, V>, l: nat) -> bool {
    n0.bounds == n1.bounds && kind(n1.children, l) && (l == 0 ==> leaf(n0.children).cap() == leaf(n1.children).cap()) && (l > 0 ==> inner(n0.children).cap() == inner(n1.children).cap())
}
pub proof fn lemma_pwt<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, l: int, k: int)
    requires stepped(p, q, l, k), blank(p, l)
    ensures pwt(q, q.lv.len()) < pwt(p, p.lv.len())
{
    let s = p.lv[l];
    let lw = (l - 1) as nat;
    lemma_pwt_blank(p, l as nat);
    lemma_wts_at(s, k, lw);
    if l > 1 {
        assert(blank(q, l - 1)) by { assert forall|i: int| 1 <= i < l - 1 implies (#[trigger] q.lv[i]).len() == 0 by { assert(p.lv[i].len() == 0); } }
        lemma_pwt_blank(q, lw);
        assert(pwt(q, l as nat) == wts(inner(s[k].children)@, (l - 2) as nat));
    }
    assert(pwt(q, (l + 1) as nat) < pwt(p, (l + 1) as nat));
    lemma_pwt_up(p, q, (l + 1) as nat, p.lv.len());
}
pub proof fn lemma_pwt_blank<B, K, V>(p: Pending<B, K, V>, n: nat)
    requires blank(p, n as int)
    ensures pwt(p, n) == 0
    decreases n
{
    if n > 1 { lemma_pwt_blank(p, (n - 1) as nat); assert(p.lv[n - 1].len() == 0); }
}
pub proof fn lemma_pwt_up<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, m: nat, n: nat)
    requires 2 <= m <= n <= p.lv.len() == q.lv.len(), forall|i: int| m <= i < n ==> #[trigger] q.lv[i] == p.lv[i]
    ensures pwt(p, n) - pwt(q, n) == pwt(p, m) - pwt(q, m)
    decreases n - m
{
    if m < n { lemma_pwt_up(p, q, m, (n - 1) as nat); assert(q.lv[n - 1] == p.lv[n - 1]); }
}
/// All nodes at index l are rejected.
pub proof fn lemma_passed_mut<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Muts<'a, B, K, V>, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, l: int, cap: nat)
    requires
        went::<B, K, V, Q, F>(f, s0, s), pfit(now(s0), cap), blank(now(s), l), s.len() == t.len(),
        cleared(now(s), now(t), l), cleared(then(s), then(t), l),
        forall|j: int| 0 <= j < now(s).lv[l].len() ==> !f.bounds_ok(&(#[trigger] now(s).lv[l][j]).bounds) && then(s).lv[l][j] == now(s).lv[l][j],
    ensures went::<B, K, V, Q, F>(f, s0, t), blank(now(t), l + 1), pwt(now(t), t.len()) <= pwt(now(s), s.len())
{
    let (p, q) = (now(s), now(t));
    let (g, h) = (then(s), then(t));
    let lw = (l - 1) as nat;
    lemma_cleared(p, q, l);
    assert(blank(g, l)) by { assert forall|i: int| 1 <= i < l implies (#[trigger] g.lv[i]).len() == 0 by { assert(p.lv[i].len() == 0); } }
    lemma_cleared(g, h, l);
    assert(g.lv[l] =~= p.lv[l]) by { assert forall|j: int| 0 <= j < p.lv[l].len() implies g.lv[l][j] == p.lv[l][j] by { assert(g.lv[l][j] == p.lv[l][j]); } }
    assert(pall(p).take(gap(p, q)) =~= flats(p.lv[l], lw));
    lemma_none_ok::<B, K, V, Q, F>(f, p.lv[l], lw);
    assert forall|c: nat| #[trigger] pfit(p, c) implies pfit(q, c) by {
        assert forall|m: int, i: int| 1 <= m < q.lv.len() && 0 <= i < q.lv[m].len() implies fits((#[trigger] q.lv[m][i]).children, (m - 1) as nat, c) by { assert(q.lv[m][i] == p.lv[m][i]); }
    }
    assert forall|m: int, i: int| 1 <= m < q.lv.len() && 0 <= i < q.lv[m].len() implies keeps::<B, K, V, Q, F>(f, #[trigger] q.lv[m][i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, q.lv[m][i], (m - 1) as nat) by { assert(q.lv[m][i] == p.lv[m][i]); }
    if alike(q, h) {
        assert forall|m: int| 1 <= m < p.lv.len() implies likes(#[trigger] p.lv[m], g.lv[m], (m - 1) as nat) by {
            if m == l {
                assert forall|i: int| 0 <= i < p.lv[l].len() implies fits((#[trigger] p.lv[l][i]).children, lw, cap) by {}
                lemma_like_refls(p.lv[l], lw, cap);
            } else { assert(likes(q.lv[m], h.lv[m], (m - 1) as nat)); }
        }
        assert(alike(p, g));
    }
    assert(went::<B, K, V, Q, F>(f, s, t));
    lemma_went_trans::<B, K, V, Q, F>(f, s0, s, t);
    lemma_pwt_blank(p, l as nat);
    lemma_pwt_blank(q, (l + 1) as nat);
    lemma_pwt_up(p, q, (l + 1) as nat, p.lv.len());
}
/// q is p without the first k entries of the leaf
pub open spec fn leafed<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, k: int) -> bool {
    &&& 0 < p.lv.len() == q.lv.len() && 0 <= k <= p.leaf.len() && q.leaf == p.leaf.skip(k)
    &&& forall|i: int| 1 <= i < p.lv.len() ==> #[trigger] q.lv[i] == p.lv[i]
}
pub proof fn lemma_leafed<B, K, V>(p: Pending<B, K, V>, q: Pending<B, K, V>, k: int)
    requires leafed(p, q, k)
    ensures pall(p) == p.leaf.take(k) + pall(q), pwt(p, p.lv.len()) == pwt(q, q.lv.len())
{
    assert(p.leaf =~= p.leaf.take(k) + p.leaf.skip(k));
    assert(pbelow(p, 1) == p.leaf && pbelow(q, 1) == q.leaf);
    lemma_pup(p, q, p.leaf.take(k), 1, p.lv.len());
    if p.lv.len() >= 2 {
        assert(q.lv[1] == p.lv[1]);
        assert(pwt(p, 1) == 0 && pwt(q, 1) == 0);
        lemma_pwt_up(p, q, 2, p.lv.len());
    }
}
pub proof fn lemma_leafed_rest<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, k: int)
    requires leafed(now(s), now(t), k), leafed(then(s), then(t), k), pkept::<B, K, V, Q, F>(now(s), f), same_keys_at(now(s).leaf.take(k), then(s).leaf.take(k))
    ensures
        forall|cap: nat| #[trigger] pfit(now(s), cap) ==> pfit(now(t), cap), pkept::<B, K, V, Q, F>(now(t), f), alike(now(t), then(t)) ==> alike(now(s), then(s)),
{
    let (p, q) = (now(s), now(t));
    let (g, h) = (then(s), then(t));
    assert forall|c: nat| #[trigger] pfit(p, c) implies pfit(q, c) by {
        assert forall|m: int, i: int| 1 <= m < q.lv.len() && 0 <= i < q.lv[m].len() implies fits((#[trigger] q.lv[m][i]).children, (m - 1) as nat, c) by { assert(q.lv[m][i] == p.lv[m][i]); }
    }
    assert forall|m: int, i: int| 1 <= m < q.lv.len() && 0 <= i < q.lv[m].len() implies keeps::<B, K, V, Q, F>(f, #[trigger] q.lv[m][i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, q.lv[m][i], (m - 1) as nat) by { assert(q.lv[m][i] == p.lv[m][i]); }
    if alike(q, h) {
        assert forall|i: int| 0 <= i < p.leaf.len() implies (#[trigger] p.leaf[i]).0 == g.leaf[i].0 by {
            if i < k { assert(p.leaf.take(k)[i].0 == g.leaf.take(k)[i].0); } else { assert(q.leaf[i - k].0 == h.leaf[i - k].0); }
        }
        assert forall|m: int| 1 <= m < p.lv.len() implies likes(#[trigger] p.lv[m], g.lv[m], (m - 1) as nat) by { assert(likes(q.lv[m], h.lv[m], (m - 1) as nat)); }
    }
}
/// All entries of the leaf are rejected.
pub proof fn lemma_passed_leaf_mut<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Muts<'a, B, K, V>, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, cap: nat)
    requires
        went::<B, K, V, Q, F>(f, s0, s), s.len() == t.len(),
        leafed(now(s), now(t), now(s).leaf.len() as int), leafed(then(s), then(t), now(s).leaf.len() as int),
        forall|j: int| 0 <= j < now(s).leaf.len() ==> !f.key_ok((#[trigger] now(s).leaf[j]).0.borrow_spec()) && then(s).leaf[j] == now(s).leaf[j],
    ensures went::<B, K, V, Q, F>(f, s0, t), blank(now(t), 1), pwt(now(t), t.len()) == pwt(now(s), s.len())
{
    let (p, q) = (now(s), now(t));
    let k = p.leaf.len() as int;
    lemma_leafed(p, q, k);
    lemma_leafed(then(s), then(t), k);
    assert(p.leaf.take(k) =~= p.leaf);
    assert(then(s).leaf =~= p.leaf);
    lemma_leafed_rest::<B, K, V, Q, F>(f, s, t, k);
    assert(pall(p).take(gap(p, q)) =~= p.leaf);
    assert(went::<B, K, V, Q, F>(f, s, t));
    lemma_went_trans::<B, K, V, Q, F>(f, s0, s, t);
}
/// The first entry of the leaf that passes is taken.
pub proof fn lemma_taken_leaf_mut<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, s0: Muts<'a, B, K, V>, s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, key: K, v: V, w: V, cap: nat)
    requires
        went::<B, K, V, Q, F>(f, s0, s), s.len() == t.len(),
        ({
            let k = now(s).leaf.len() - now(t).leaf.len() - 1;
            &&& 0 <= k && leafed(now(s), now(t), k + 1) && leafed(then(s), then(t), k + 1) && now(s).leaf[k] == (key, v) && then(s).leaf[k] == (key, w)
            &&& forall|j: int| 0 <= j < k ==> !f.key_ok((#[trigger] now(s).leaf[j]).0.borrow_spec()) && then(s).leaf[j] == now(s).leaf[j]
        }),
        f.key_ok(key.borrow_spec()),
    ensures
        took::<B, K, V, Q, F>(f, s0, t, key, v, w), forall|cap: nat| #[trigger] pfit(now(s0), cap) ==> pfit(now(t), cap), pkept::<B, K, V, Q, F>(now(t), f),
{
    let (o, p, q) = (now(s0), now(s), now(t));
    let k = p.leaf.len() - q.leaf.len() - 1;
    lemma_leafed(p, q, k + 1);
    lemma_leafed(then(s), then(t), k + 1);
    let x = pall(o).take(gap(o, p));
    let y = p.leaf.take(k);
    assert(p.leaf.take(k + 1) =~= y + seq![(key, v)]);
    assert(then(s).leaf.take(k + 1) =~= y + seq![(key, w)]);
    assert(same_keys_at(p.leaf.take(k + 1), then(s).leaf.take(k + 1)));
    lemma_leafed_rest::<B, K, V, Q, F>(f, s, t, k + 1);
    assert(pall(o) =~= (x + y) + (seq![(key, v)] + pall(q)));
    assert(pall(then(s0)) =~= (x + y) + (seq![(key, w)] + pall(then(t))));
    assert(pall(o).take(gap(o, q) - 1) =~= x + y);
    assert forall|i: int| 0 <= i < (x + y).len() implies !f.key_ok((#[trigger] (x + y)[i]).0.borrow_spec()) by { if i < x.len() { assert((x + y)[i] == x[i]); } else { assert((x + y)[i] == y[i - x.len()]); } }
}
pub proof fn lemma_new_mut<'a, B, K, V>(s: Muts<'a, B, K, V>, t: Muts<'a, B, K, V>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize)
    requires
        s.len() == l + 1, stack_of(s), curs(lf(s[0])).len() == 0, forall|i: int| 1 <= i < s.len() ==> mnodes(#[trigger] pm(s, i), i).len() == 0,
        turned(n0, n1, l as nat),
        l == 0 ==> put_leaf(s, t, lf(t[0])) && curs(lf(t[0])) =~= leaf(n0.children)@ && fins(lf(t[0])) =~= leaf(n1.children)@,
        l > 0 ==> put_inner(s, t, l as int, inn(t[l as int])) && curs(inn(t[l as int])) =~= inner(n0.children)@ && fins(inn(t[l as int])) =~= inner(n1.children)@,
    ensures rooted_mut(t, n0, n1, l)
{
    assert(now(t).lv.len() == l + 1 && then(t).lv.len() == l + 1);
    if l > 0 {
        assert(t[0] == s[0]);
        assert(now(t).leaf =~= Seq::empty() && then(t).leaf =~= Seq::empty());
        assert forall|i: int| 1 <= i < l implies (#[trigger] now(t).lv[i]).len() == 0 && then(t).lv[i].len() == 0 by { assert(mnodes(pm(s, i), i).len() == 0); assert(t[i] == s[i]); }
        assert forall|i: int| 1 <= i < l implies (#[trigger] then(t).lv[i]).len() == 0 by { assert(now(t).lv[i].len() == 0); }
        assert(blank(now(t), l as int) && blank(then(t), l as int));
        assert(now(t).lv[l as int] =~= inner(n0.children)@ && then(t).lv[l as int] =~= inner(n1.children)@);
    }
    assert(root_of(now(t), n0, l));
    assert(root_of(then(t), n1, l));
}
pub proof fn lemma_rooted_mut<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(t: Muts<'a, B, K, V>, n0: Node<B, K, V>, n1: Node<B, K, V>, l: usize, f: F)
    requires rooted_mut(t, n0, n1, l)
    ensures
        pall(now(t)) == flat(n0.children, l as nat), pall(then(t)) == flat(n1.children, l as nat),
        forall|cap: nat| fits(n0.children, l as nat, cap) ==> #[trigger] pfit(now(t), cap),
        keeps::<B, K, V, Q, F>(f, n0, l as nat) && permits_in::<B, K, V, Q, F>(f, n0, l as nat) ==> pkept::<B, K, V, Q, F>(now(t), f),
        alike(now(t), then(t)) ==> like(n0, n1, l as nat),
{
    let (p, g) = (now(t), then(t));
    if l > 0 {
        lemma_pblank(p, l as nat);
        lemma_pblank(g, l as nat);
        assert(pall(p) =~= flat(n0.children, l as nat));
        assert(pall(g) =~= flat(n1.children, l as nat));
        assert forall|cap: nat| fits(n0.children, l as nat, cap) implies #[trigger] pfit(p, cap) by {
            assert forall|m: int, i: int| 1 <= m < p.lv.len() && 0 <= i < p.lv[m].len() implies fits((#[trigger] p.lv[m][i]).children, (m - 1) as nat, cap) by { if m < l { assert(p.lv[m].len() == 0); } }
        }
        if keeps::<B, K, V, Q, F>(f, n0, l as nat) && permits_in::<B, K, V, Q, F>(f, n0, l as nat) {
            assert forall|m: int, i: int| 1 <= m < p.lv.len() && 0 <= i < p.lv[m].len() implies keeps::<B, K, V, Q, F>(f, #[trigger] p.lv[m][i], (m - 1) as nat) && permits::<B, K, V, Q, F>(f, p.lv[m][i], (m - 1) as nat) by { if m < l { assert(p.lv[m].len() == 0); } }
        }
        if alike(p, g) { assert(likes(p.lv[l as int], g.lv[l as int], (l - 1) as nat)); }
    }
}

//@ module rtree_itermut from src/lib.rs
//@ uses
use super::*;
use super::std_model::*;
use super::laws::*;
use super::{bounds::{Bounds, Bounded}, filter::{NoFilter, SpatialFilter}, node::*, iter_stack::*, rtree::*, rtree_iter::theorem_filtered, iter::*, itermut::*, itermut as iter};
use core::slice;
//@ only RTree::iter_mut; RTree::filter_iter_mut; &'a mut RTree<B,Key,Value> as IntoIterator
//@ rewrite iter::IterMut<Box<TreeIterMut<B, Key, Value>>> ==> iter::IterMut<TreeIterMut<'_, B, Key, Value>>
//@ rewrite iter::IterMut<Box<TreeIterMut<'a, B, Key, Value>>> ==> iter::IterMut<TreeIterMut<'a, B, Key, Value>>
//@ rewrite iter::FilterIterMut<Box<TreeIterMut<B, Key, Value>>, Q, Filter> ==> iter::FilterIterMut<TreeIterMut<'_, B, Key, Value>, Q, Filter>
//@ rewrite fn into_iter(self) -> Self::IntoIter ==> fn into_iter_mut(&'a mut self) -> iter::IterMut<TreeIterMut<'a, B, Key, Value>>
//@ item &'a mut RTree<B,Key,Value> as IntoIterator
header <'a, B, Key: Bounded<B>, Value> RTree<B, Key, Value>
//@ fn &'a mut RTree<B,Key,Value> as IntoIterator::into_iter_mut
    requires old(self).fits()
    ensures opened(*old(self), *final(self), res.stack@), res.wf(), res.left() == old(self).entries()
//@ fn RTree::iter_mut
    requires old(self).fits()
    ensures opened(*old(self), *final(self), res.stack@), res.wf(), res.left() == old(self).entries()
//@ fn RTree::filter_iter_mut
    requires old(self).fits(), filter.flaw(), keeps::<B, Key, Value, Q, Filter>(filter, old(self).root.node, old(self).root.level as nat), permits::<B, Key, Value, Q, Filter>(filter, old(self).root.node, old(self).root.level as nat)
    ensures
        res.wf(), res.filter == filter,
        res.iter.stack@.len() > 0 && opened(*old(self), *final(self), res.iter.stack@)
            || res.iter.stack@.len() == 0 && *final(self) == *old(self) && none_ok::<B, Key, Value, Q, Filter>(filter, old(self).entries()),
//@ text
/// A stack that has all entries of t left, and makes them those of u; the trees differ in values only, if what is left is alike in the end.
#[verifier::prophetic]
pub open spec fn opened<'a, B, K, V>(t: RTree<B, K, V>, u: RTree<B, K, V>, s: Muts<'a, B, K, V>) -> bool {
    &&& pall(now(s)) == t.entries() && pall(then(s)) == u.entries()
    &&& u.root.level == t.root.level && u.root.alloc == t.root.alloc
    &&& alike(now(s), then(s)) ==> like(t.root.node, u.root.node, t.root.level as nat)
}
/// When mutable iteration is over, the tree is sound: only values have changed.
pub proof fn theorem_mutated<B: Bounds + Clone, K: Bounded<B>, V>(t: RTree<B, K, V>, u: RTree<B, K, V>)
    requires t.sound(), u.root.level == t.root.level, u.root.alloc == t.root.alloc, like(t.root.node, u.root.node, t.root.level as nat)
    ensures u.sound()
{
    lemma_like_good::<B, K, V>(t.root.node, u.root.node, t.root.level as nat, t.root.alloc);
}
/// the entry once the value of what f accepts is w
pub open spec fn set_to<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, e: (K, V), w: V) -> (K, V) {
    if f.key_ok(e.0.borrow_spec()) { (e.0, w) } else { e }
}
/// q, of which then is u, is what is left of p, of which then is t, after d entries
pub open spec fn advanced<B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, p: Seq<(K, V)>, t: Seq<(K, V)>, q: Seq<(K, V)>, u: Seq<(K, V)>, w: V, d: int) -> bool {
    &&& 0 <= d <= p.len() && t.len() == d + u.len() && q =~= p.skip(d) && u =~= t.skip(d)
    &&& forall|i: int| 0 <= i < d ==> #[trigger] t[i] == set_to::<B, K, V, Q, F>(f, p[i], w)
}
pub proof fn lemma_advanced<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, p: Seq<(K, V)>, t: Seq<(K, V)>, s: Muts<'a, B, K, V>, s2: Muts<'a, B, K, V>, key: K, v: V, w: V, d: int)
    requires advanced::<B, K, V, Q, F>(f, p, t, pall(now(s)), pall(then(s)), w, d), took::<B, K, V, Q, F>(f, s, s2, key, v, w)
    ensures advanced::<B, K, V, Q, F>(f, p, t, pall(now(s2)), pall(then(s2)), w, d + gap(now(s), now(s2)))
{
    let n = gap(now(s), now(s2)) - 1;
    let x = pall(now(s)).take(n);
    let e = d + n + 1;
    let (q, q2, u, u2) = (pall(now(s)), pall(now(s2)), pall(then(s)), pall(then(s2)));
    assert(q.len() == x.len() + 1 + q2.len());
    assert(u.len() == x.len() + 1 + u2.len());
    assert forall|i: int| 0 <= i < q2.len() implies q2[i] == p.skip(e)[i] by { assert(q[i + n + 1] == q2[i]); }
    assert forall|i: int| 0 <= i < u2.len() implies u2[i] == t.skip(e)[i] by { assert(u[i + n + 1] == u2[i]); }
    assert(q2 =~= p.skip(e));
    assert(u2 =~= t.skip(e));
    assert forall|i: int| 0 <= i < e implies #[trigger] t[i] == set_to::<B, K, V, Q, F>(f, p[i], w) by {
        if i >= d {
            assert(p[i] == pall(now(s))[i - d]);
            assert(t[i] == pall(then(s))[i - d]);
            if i < d + n { assert(x[i - d] == p[i]); assert(t[i] == x[i - d]); } else { assert(p[i] == (key, v) && t[i] == (key, w)); }
        }
    }
}
pub proof fn lemma_finished<'a, B, K: Borrow<Q>, V, Q: ?Sized, F: SpatialFilter<B, Q>>(f: F, p: Seq<(K, V)>, t: Seq<(K, V)>, s: Muts<'a, B, K, V>, s2: Muts<'a, B, K, V>, w: V, d: int)
    requires advanced::<B, K, V, Q, F>(f, p, t, pall(now(s)), pall(then(s)), w, d), done::<B, K, V, Q, F>(f, s, s2)
    ensures t.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] t[i] == set_to::<B, K, V, Q, F>(f, p[i], w)
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] t[i] == set_to::<B, K, V, Q, F>(f, p[i], w) by {
        if i >= d { assert(p[i] == pall(now(s))[i - d]); assert(t[i] == pall(then(s))[i - d]); assert(!f.key_ok(pall(now(s))[i - d].0.borrow_spec())); }
    }
}
/// What a caller gets who writes w through every item of a filtered mutable iteration: exactly the accepted entries have the value w,
/// every other entry is as it was, and the tree is sound.
fn theorem_write_through<B: Bounds + Clone, K: Bounded<B> + Borrow<Q>, V: Copy, Q: ?Sized, F: SpatialFilter<B, Q>>(t: &mut RTree<B, K, V>, f: F, w: V)
    requires old(t).sound(), law::<B, K>(), f.flaw(), filter_law::<B, K, V, Q, F>(f, old(t).entries()), permits::<B, K, V, Q, F>(f, old(t).root.node, old(t).root.level as nat)
    ensures
        final(t).sound(), final(t).root.alloc == old(t).root.alloc, final(t).entries().len() == old(t).entries().len(),
        forall|i: int| 0 <= i < old(t).entries().len() ==> #[trigger] final(t).entries()[i] == set_to::<B, K, V, Q, F>(f, old(t).entries()[i], w),
{
    let ghost t0 = *t;
    proof { theorem_filtered::<B, K, V, Q, F>(*t, f); }
    let mut it = t.filter_iter_mut(f);
    let ghost s0 = it.iter.stack@;
    let ghost mut d = 0int;
    loop
        invariant_except_break
            it.wf(), it.filter == f, it.iter.stack@ == it.iter.stack.stk(),
            advanced::<B, K, V, Q, F>(f, pall(now(s0)), pall(then(s0)), pall(now(it.iter.stack@)), pall(then(it.iter.stack@)), w, d), alike(now(it.iter.stack@), then(it.iter.stack@)) ==> alike(now(s0), then(s0)),
        ensures
            pall(then(s0)).len() == pall(now(s0)).len(), forall|i: int| 0 <= i < pall(now(s0)).len() ==> #[trigger] pall(then(s0))[i] == set_to::<B, K, V, Q, F>(f, pall(now(s0))[i], w), alike(now(s0), then(s0)),
        decreases pall(now(it.iter.stack@)).len()
    {
        let ghost s1 = it.iter.stack@;
        match it.next_item() {
            None => {
                proof { lemma_finished::<B, K, V, Q, F>(f, pall(now(s0)), pall(then(s0)), s1, it.iter.stack@, w, d); }
                break;
            }
            Some((key, v)) => {
                let ghost v0 = *v;
                *v = w;
                proof {
                    lemma_advanced::<B, K, V, Q, F>(f, pall(now(s0)), pall(then(s0)), s1, it.iter.stack@, *key, v0, w, d);
                    d = d + gap(now(s1), now(it.iter.stack@));
                }
            }
        }
    }
    proof {
        if s0.len() > 0 { theorem_mutated(t0, *t); } else { assert(*t == t0); assert(pall(now(s0)).len() == 0); }
        assert(t.entries().len() == t0.entries().len());
        if s0.len() == 0 { assert forall|i: int| 0 <= i < t0.entries().len() implies #[trigger] t.entries()[i] == set_to::<B, K, V, Q, F>(f, t0.entries()[i], w) by { assert(!f.key_ok(t0.entries()[i].0.borrow_spec())); } }
    }
}
