//! a block of memory is RawBuf: a fixed number of slots, each holding a value or nothing; NonNull<T> with alloc, dealloc, ptr::read, write, copy, swap and slice::from_raw_parts on it are its methods, with the ownership preconditions of the pointer operations as contracts (trusted)
//! pointers into the buffer of an IntoIter are offsets; T is not zero-sized, the capacity is positive and its layout fits (allocation cannot fail otherwise)
//! `ptr::read(&self.f)` followed by `mem::forget(self)` is a move out of the field (an obligation checks that both are there); drops at the end of a scope are the compiler's; unwinding is not modelled
//@ crate
pub mod mem_model {
    use super::*;

    /// Whether T's own drop (if any) may run on the value and releases everything the value owns.
    pub uninterp spec fn glue_ok<T>(x: T) -> bool;

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct RawBuf<T> { p: core::marker::PhantomData<T> }

    pub struct Layout { pub n: usize }

    /// alloc::Layout::array::<T>(n).unwrap()
    #[verifier::external_body]
    pub fn layout_array<T>(n: usize) -> (r: Layout)
        ensures r.n == n
    { unimplemented!() }

    pub open spec fn all_none<T>(s: Seq<Option<T>>, a: int, b: int) -> bool {
        forall|i: int| a <= i < b ==> (#[trigger] s[i]) is None
    }
    pub open spec fn all_some<T>(s: Seq<Option<T>>, a: int, b: int) -> bool {
        forall|i: int| a <= i < b ==> (#[trigger] s[i]) is Some
    }

    impl<T> RawBuf<T> {
        pub uninterp spec fn slots(&self) -> Seq<Option<T>>;
        pub uninterp spec fn live(&self) -> bool;

        #[verifier::external_body]
        pub fn alloc(l: Layout) -> (r: Self)
            requires l.n >= 1
            ensures r.live(), r.slots().len() == l.n, all_none(r.slots(), 0, l.n as int)
        { unimplemented!() }

        #[verifier::external_body]
        pub fn dealloc(&mut self, l: Layout)
            requires old(self).live(), old(self).slots().len() == l.n, all_none(old(self).slots(), 0, l.n as int)
            ensures !final(self).live(), final(self).slots() == old(self).slots()
        { unimplemented!() }

        /// ptr::read: the slot no longer owns the value
        #[verifier::external_body]
        pub fn read(&mut self, i: usize) -> (r: T)
            requires old(self).live(), i < old(self).slots().len(), old(self).slots()[i as int] is Some
            ensures final(self).live(), final(self).slots() == old(self).slots().update(i as int, None), r == old(self).slots()[i as int]->Some_0
        { unimplemented!() }

        /// ptr::write: the slot must not own a value
        #[verifier::external_body]
        pub fn write(&mut self, i: usize, v: T)
            requires old(self).live(), i < old(self).slots().len(), old(self).slots()[i as int] is None
            ensures final(self).live(), final(self).slots() == old(self).slots().update(i as int, Some(v))
        { unimplemented!() }

        /// ptr::copy: moves n values; the values it overwrites must have been moved out
        #[verifier::external_body]
        pub fn copy(&mut self, a: usize, b: usize, n: usize)
            requires
                old(self).live(), a + n <= old(self).slots().len(), b + n <= old(self).slots().len(),
                forall|i: int| b <= i < b + n && !(a <= i < a + n) ==> (#[trigger] old(self).slots()[i]) is None,
            ensures
                final(self).live(), final(self).slots().len() == old(self).slots().len(),
                forall|i: int| #![trigger final(self).slots()[i]] 0 <= i < old(self).slots().len() ==> final(self).slots()[i] ==
                    (if b <= i < b + n { old(self).slots()[i - b + a] } else if a <= i < a + n { None } else { old(self).slots()[i] }),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn swap(&mut self, a: usize, b: usize)
            requires old(self).live(), a < old(self).slots().len(), b < old(self).slots().len(),
                old(self).slots()[a as int] is Some, old(self).slots()[b as int] is Some
            ensures final(self).live(),
                final(self).slots() == old(self).slots().update(a as int, old(self).slots()[b as int]).update(b as int, old(self).slots()[a as int])
        { unimplemented!() }

        #[verifier::external_body]
        pub fn slice(&self, n: usize) -> (r: &[T])
            requires self.live(), n <= self.slots().len(), all_some(self.slots(), 0, n as int)
            ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == self.slots()[i]->Some_0
        { unimplemented!() }

        #[verifier::external_body]
        pub fn slice_mut(&mut self, n: usize) -> (r: &mut [T])
            requires old(self).live(), n <= old(self).slots().len(), all_some(old(self).slots(), 0, n as int)
            ensures
                r@.len() == n, final(r)@.len() == n,
                forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == old(self).slots()[i]->Some_0,
                final(self).live(), final(self).slots().len() == old(self).slots().len(),
                forall|i: int| #![trigger final(self).slots()[i]] 0 <= i < old(self).slots().len() ==>
                    final(self).slots()[i] == (if i < n { Some(final(r)@[i]) } else { old(self).slots()[i] }),
        { unimplemented!() }
    }

    /// A value taken out of the buffer is dropped here.
    #[verifier::external_body]
    pub fn drop_popped<T>(x: Option<T>) -> (r: bool)
        requires x is Some ==> glue_ok(x->Some_0)
        ensures r == x is Some
    { unimplemented!() }
}

//@ module fc_vec from src/fc_vec.rs
//@ uses
use super::*;
use super::mem_model::*;
use core::slice::{Iter, IterMut};
use vstd::std_specs::iter::IteratorSpec;
//@ drop * as Debug; FCVec<T> as PartialEq; FCVec<T> as Send; FCVec<T> as Sync; &'a FCVecContainer<T> as IntoIterator; &'a mut FCVecContainer<T> as IntoIterator; IntoIter<T> as Iterator::size_hint
//@ rewrite let buf = self.data.buf.as_ptr(); ==>
//@ rewrite ptr::write(buf.add($i), $v) ==> self.data.buf.write($i, $v)
//@ rewrite ptr::read(buf.add($i)) ==> self.data.buf.read($i)
//@ rewrite ptr::copy(buf.add($i), buf.add($j), $n) ==> self.data.buf.copy($i, $j, $n)
//@ rewrite ptr::swap(buf.add($i), buf.add($j)) ==> self.data.buf.swap($i, $j)
//@ rewrite std::slice::from_raw_parts(self.buf.as_ptr(), self.len) ==> self.buf.slice(self.len)
//@ rewrite std::slice::from_raw_parts_mut(self.buf.as_ptr(), self.len) ==> self.buf.slice_mut(self.len)
//@ rewrite alloc::Layout::array::<T>($n).unwrap() ==> layout_array::<T>($n)
//@ rewrite match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) { Some(ptr) => ptr, None => alloc::handle_alloc_error(layout), } ==> RawBuf::<T>::alloc(layout)
//@ rewrite index: I ==> index: usize
//@ rewrite &Self::Output ==> &T
//@ rewrite &mut Self::Output ==> &mut T
//@ rewrite &Self::Target ==> &[T]
//@ rewrite &mut Self::Target ==> &mut [T]
//@ rewrite Option<Self::Item> ==> Option<T>
//@ rewrite impl<'a, T> IntoIterator for &'a FCVec<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { $b } } ==> impl<'a, T> FCVec<T> { pub fn each(&'a self) -> Iter<'a, T> { $b } }
//@ rewrite impl<'a, T> IntoIterator for &'a mut FCVec<T> { type Item = &'a mut T; type IntoIter = IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { $b } } ==> impl<'a, T> FCVec<T> { pub fn each_mut(&'a mut self) -> IterMut<'a, T> { $b } }
//@ rewrite type IntoIter = IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter ==> fn into_iter(self) -> IterMut<'a, T>
//@ rewrite type IntoIter = IntoIter<T>; fn into_iter(self) -> Self::IntoIter ==> fn into_iter(self) -> IntoIter<T>
//@ item FCVec
replace pub struct FCVec<T> { pub buf: RawBuf<T>, pub len: usize }
//@ item IntoIter
replace pub struct IntoIter<T> { pub buf: RawBuf<T>, pub cap: usize, pub start: usize, pub end: usize }
//@ item FCVec<T> as Deref
header <T> FCVec<T>
//@ item FCVec<T> as DerefMut
header <T> FCVec<T>
//@ item FCVec<T> as Index<I>
header <T> FCVec<T>
//@ item FCVec<T> as IndexMut<I>
header <T> FCVec<T>
//@ item FCVecRefMut<'a,T> as Deref
header <'a, T> FCVecRefMut<'a, T>
//@ item FCVecRefMut<'a,T> as DerefMut
header <'a, T> FCVecRefMut<'a, T>
//@ item FCVecRefMut<'a,T> as Index<I>
header <'a, T> FCVecRefMut<'a, T>
//@ item FCVecRefMut<'a,T> as IndexMut<I>
header <'a, T> FCVecRefMut<'a, T>
//@ item FCVecRefMut<'a,T> as IntoIterator
header <'a, T> FCVecRefMut<'a, T>
//@ item FCVecContainer<T> as Deref
header <T> FCVecContainer<T>
//@ item FCVecContainer<T> as DerefMut
header <T> FCVecContainer<T>
//@ item FCVecContainer<T> as IntoIterator
header <T> FCVecContainer<T>
//@ item FCVecContainer<T> as Drop
header <T> FCVecContainer<T>
//@ item IntoIter<T> as Iterator
header <T> IntoIter<T>
//@ item IntoIter<T> as DoubleEndedIterator
header <T> IntoIter<T>
//@ item IntoIter<T> as Drop
header <T> IntoIter<T>
//@ text
/// elements a..b of the slots
pub open spec fn vals<T>(s: Seq<Option<T>>, a: int, b: int) -> Seq<T> { Seq::new((b - a) as nat, |i: int| s[a + i]->Some_0) }

impl<T> FCVec<T> {
    pub open spec fn view(&self) -> Seq<T> { vals(self.buf.slots(), 0, self.len as int) }
    pub open spec fn cap(&self) -> nat { self.buf.slots().len() }
    /// The buffer is allocated; exactly the first len slots own a value.
    pub open spec fn wf(&self) -> bool {
        &&& self.buf.live() && self.len <= self.cap() <= usize::MAX
        &&& all_some(self.buf.slots(), 0, self.len as int)
        &&& all_none(self.buf.slots(), self.len as int, self.cap() as int)
    }
    pub open spec fn dead(&self) -> bool { !self.buf.live() }
}

impl<'a, T> FCVecRefMut<'a, T> {
    pub open spec fn wf(&self) -> bool { self.data.wf() && self.data.cap() == self.ops.cap }
    pub open spec fn view(&self) -> Seq<T> { self.data@ }
    /// what became of the vector, relative to what a borrow saw
    #[verifier::prophetic]
    pub open spec fn same_target(&self, other: &Self) -> bool { *final(self.data) == *final(other.data) && self.ops == other.ops }
}

impl<T> FCVecContainer<T> {
    pub open spec fn wf(&self) -> bool { self.data.wf() && self.data.cap() == self.ops.cap }
    pub open spec fn view(&self) -> Seq<T> { self.data@ }
}

impl<T> IntoIter<T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.buf.live() && self.buf.slots().len() == self.cap && self.start <= self.end <= self.cap
        &&& all_none(self.buf.slots(), 0, self.start as int)
        &&& all_some(self.buf.slots(), self.start as int, self.end as int)
        &&& all_none(self.buf.slots(), self.end as int, self.cap as int)
    }
    pub open spec fn view(&self) -> Seq<T> { vals(self.buf.slots(), self.start as int, self.end as int) }
}

/// what the items become
#[verifier::prophetic]
pub open spec fn ends<T>(s: Seq<&mut T>) -> Seq<T> { Seq::new(s.len(), |i: int| *final(s[i])) }
pub open spec fn all_glue_ok<T>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> glue_ok(#[trigger] s[i]) }

//@ fn FCVec::len
    ensures res == self.len
//@ fn FCVec::iter
    requires self.wf()
    ensures res.remaining() == self@.as_ref(), res.obeys_prophetic_iter_laws(), res.decrease() is Some
//@ fn FCVec::iter_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(), final(self).len == old(self).len,
        res.remaining().len() == old(self)@.len(), res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some,
        forall|i: int| 0 <= i < old(self)@.len() ==> *(#[trigger] res.remaining()[i]) == old(self)@[i],
        forall|i: int| #![trigger res.remaining()[i]] #![trigger final(self)@[i]] 0 <= i < old(self)@.len() ==> *final(res.remaining()[i]) == final(self)@[i], final(self)@ =~= ends(res.remaining()),
//@ fn FCVec::each
    requires self.wf()
    ensures res.remaining() == self@.as_ref(), res.obeys_prophetic_iter_laws(), res.decrease() is Some
//@ fn FCVec::each_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(), final(self).len == old(self).len,
        res.remaining().len() == old(self)@.len(), res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some,
        forall|i: int| 0 <= i < old(self)@.len() ==> *(#[trigger] res.remaining()[i]) == old(self)@[i],
        forall|i: int| #![trigger res.remaining()[i]] #![trigger final(self)@[i]] 0 <= i < old(self)@.len() ==> *final(res.remaining()[i]) == final(self)@[i], final(self)@ =~= ends(res.remaining()),
//@ fn FCVec<T> as Deref::deref
    requires self.wf()
    ensures res@ == self@
//@ fn FCVec<T> as DerefMut::deref_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(), final(self).len == old(self).len,
        res@ == old(self)@, final(res)@ == final(self)@,
//@ fn FCVec<T> as Index<I>::index
    requires self.wf(), index < self@.len()
    ensures *res == self@[index as int]
//@ fn FCVec<T> as IndexMut<I>::index_mut
    requires old(self).wf(), index < old(self)@.len()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(), final(self).len == old(self).len,
        *res == old(self)@[index as int], final(self)@ == old(self)@.update(index as int, *final(res)),
//@ fn Alloc::new_alloc
    ensures res.cap == cap
//@ fn Alloc::new_vec
    requires self.cap >= 1
    ensures res.wf(), res.ops == *self, res@.len() == 0
//@ fn Alloc::wrap
    ensures res.data == vec, res.ops == *self
//@ fn Alloc::wrap_ref_mut
    ensures *res.data == *old(vec), *final(res.data) == *final(vec), res.ops == *self
//@ fn Alloc::clone
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires self.cap >= 1, vec@.len() <= self.cap
    ensures
        res.wf(), res.ops == *self, res@.len() == vec@.len(),
        forall|i: int| 0 <= i < vec@.len() ==> call_ensures(T::clone, (&#[trigger] vec@[i],), res@[i]),
//@ loop 0 iter it
            invariant
                self.cap >= 1, vec@.len() <= self.cap, it.seq() == vec@.as_ref(),
                new.wf(), new.ops == *self, new@.len() == it.index(),
                forall|i: int| 0 <= i < it.index() ==> call_ensures(T::clone, (&#[trigger] vec@[i],), new@[i]),
//@ fn FCVecRefMut::len
    ensures res == self@.len()
//@ fn FCVecRefMut::ops
    ensures *res == self.ops
//@ fn FCVecRefMut::iter
    requires self.wf()
    ensures res.remaining() == self@.as_ref(), res.obeys_prophetic_iter_laws(), res.decrease() is Some
//@ fn FCVecRefMut::iter_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@.len() == old(self)@.len(), final(self).same_target(old(self)),
        res.remaining().len() == old(self)@.len(), res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some,
        forall|i: int| 0 <= i < old(self)@.len() ==> *(#[trigger] res.remaining()[i]) == old(self)@[i],
        forall|i: int| #![trigger res.remaining()[i]] #![trigger final(self)@[i]] 0 <= i < old(self)@.len() ==> *final(res.remaining()[i]) == final(self)@[i], final(self)@ =~= ends(res.remaining()),
//@ fn FCVecRefMut::into_iter_mut
    requires self.wf()
    ensures
        final(self.data).wf(), final(self.data).cap() == old(self.data).cap(), final(self.data)@.len() == self@.len(),
        res.remaining().len() == self@.len(), res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some,
        forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] res.remaining()[i]) == self@[i],
        forall|i: int| #![trigger res.remaining()[i]] #![trigger final(self.data)@[i]] 0 <= i < self@.len() ==> *final(res.remaining()[i]) == final(self.data)@[i], final(self.data)@ =~= ends(res.remaining()),
//@ fn FCVecRefMut::push
    requires old(self).wf(), old(self)@.len() < old(self).ops.cap
    ensures final(self).wf(), final(self).same_target(old(self)), final(self)@ =~= old(self)@.push(value)
//@ fn FCVecRefMut::try_push
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same_target(old(self)),
        old(self)@.len() < old(self).ops.cap ==> res is None && final(self)@ =~= old(self)@.push(value),
        old(self)@.len() == old(self).ops.cap ==> res == Some(value) && final(self)@ == old(self)@,
//@ fn FCVecRefMut::insert
    requires old(self).wf(), old(self)@.len() < old(self).ops.cap, index <= old(self)@.len()
    ensures final(self).wf(), final(self).same_target(old(self)), final(self)@ =~= old(self)@.insert(index as int, value)
//@ fn FCVecRefMut::remove
    requires old(self).wf(), index < old(self)@.len()
    ensures final(self).wf(), final(self).same_target(old(self)), final(self)@ =~= old(self)@.remove(index as int), res == old(self)@[index as int]
//@ fn FCVecRefMut::swap_remove
    requires old(self).wf(), index < old(self)@.len()
    ensures
        final(self).wf(), final(self).same_target(old(self)), res == old(self)@[index as int],
        final(self)@ =~= old(self)@.update(index as int, old(self)@.last()).drop_last(),
//@ fn FCVecRefMut::swap
    requires old(self).wf(), index_1 < old(self)@.len(), index_2 < old(self)@.len()
    ensures
        final(self).wf(), final(self).same_target(old(self)),
        final(self)@ =~= old(self)@.update(index_1 as int, old(self)@[index_2 as int]).update(index_2 as int, old(self)@[index_1 as int]),
//@ fn FCVecRefMut::pop
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same_target(old(self)),
        old(self)@.len() == 0 ==> res is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> res == Some(old(self)@.last()) && final(self)@ =~= old(self)@.drop_last(),
//@ fn FCVecRefMut::drop
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires self.wf(), all_glue_ok(self@)
    ensures final(self.data).dead()
//@ rewrite alloc::dealloc(this.data.buf.as_ptr() as *mut u8, layout) ==> this.data.buf.dealloc(layout)
//@ rewrite this.pop().is_some() ==> drop_popped(this.pop())
//@ loop 0
            invariant this.wf(), all_glue_ok(this@), this.same_target(&self)
            ensures this.data.len == 0
            decreases this.data.len
//@ fn FCVecRefMut<'a,T> as Deref::deref
    requires self.wf()
    ensures res@ == self@
//@ fn FCVecRefMut<'a,T> as DerefMut::deref_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same_target(old(self)), final(self).data.len == old(self).data.len,
        res@ == old(self)@, final(res)@ == final(self)@,
//@ fn FCVecRefMut<'a,T> as Index<I>::index
    requires self.wf(), index < self@.len()
    ensures *res == self@[index as int]
//@ fn FCVecRefMut<'a,T> as IndexMut<I>::index_mut
    requires old(self).wf(), index < old(self)@.len()
    ensures
        final(self).wf(), final(self).same_target(old(self)),
        *res == old(self)@[index as int], final(self)@ == old(self)@.update(index as int, *final(res)),
//@ fn FCVecRefMut<'a,T> as IntoIterator::into_iter
    requires self.wf()
    ensures
        final(self.data).wf(), final(self.data).cap() == old(self.data).cap(), final(self.data)@.len() == self@.len(),
        res.remaining().len() == self@.len(), res.obeys_prophetic_iter_laws(), res.will_return_none(), res.decrease() is Some,
        forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] res.remaining()[i]) == self@[i],
        forall|i: int| #![trigger res.remaining()[i]] #![trigger final(self.data)@[i]] 0 <= i < self@.len() ==> *final(res.remaining()[i]) == final(self.data)@[i], final(self.data)@ =~= ends(res.remaining()),
//@ rewrite self.data.into_iter() ==> self.data.iter_mut()
//@ fn FCVecContainer<T> as Drop::drop
    requires old(self).wf(), all_glue_ok(old(self)@)
    ensures final(self).data.dead()
//@ fn FCVecContainer<T> as Deref::deref
    requires self.wf()
    ensures res@ == self@
//@ fn FCVecContainer<T> as DerefMut::deref_mut
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).ops == old(self).ops, final(self).data.len == old(self).data.len,
        res@ == old(self)@, final(res)@ == final(self)@,
//@ fn FCVecContainer<T> as IntoIterator::into_iter
    requires self.wf()
    ensures res.wf(), res@ == self@, res.cap == self.ops.cap
//@ rewrite unsafe { ptr::read(&self.data) } ==> self.data
//@ rewrite unsafe { ptr::read(&self.ops) } ==> self.ops
//@ rewrite mem::forget(self); ==>
//@ rewrite data.buf.as_ptr() ==> 0usize
//@ rewrite start.add(data.len) ==> start + data.len
//@ fn FCVecContainer::leak
    ensures res == self.data
//@ rewrite unsafe { ptr::read(&self.data) } ==> self.data
//@ rewrite mem::forget(self); ==>
//@ fn FCVecContainer::len
    ensures res == self.data.len
//@ fn FCVecContainer::borrow
    requires self.wf()
    ensures res@ == self@
//@ rewrite slice::from_raw_parts(self.data.as_ptr(), self.len()) ==> self.data.buf.slice(self.len())
//@ tail
        proof { assert(vals(self.data.buf.slots(), 0, self.data.len as int) == self@); }
//@ fn FCVecContainer::borrow_mut
    ensures
        *res.data == old(self).data, *final(res.data) == final(self).data, res.ops == old(self).ops, final(self).ops == old(self).ops,
//@ fn FCVecContainer::push
    requires old(self).wf(), old(self)@.len() < old(self).ops.cap
    ensures final(self).wf(), final(self).ops == old(self).ops, final(self)@ == old(self)@.push(value)
//@ fn IntoIter<T> as Iterator::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap == old(self).cap,
        old(self)@.len() == 0 ==> res is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> res == Some(old(self)@.first()) && final(self)@ == old(self)@.drop_first(),
//@ rewrite ptr::read(self.start) ==> self.buf.read(self.start)
//@ rewrite self.start.add(1) ==> self.start + 1
//@ before Some(result)
                proof { assert(vals(self.buf.slots(), self.start as int, self.end as int) =~= old(self)@.drop_first()); }
//@ fn IntoIter<T> as DoubleEndedIterator::next_back
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap == old(self).cap,
        old(self)@.len() == 0 ==> res is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> res == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
//@ rewrite ptr::read(self.end) ==> self.buf.read(self.end)
//@ rewrite self.end.sub(1) ==> self.end - 1
//@ before Some(result)
                proof { assert(vals(self.buf.slots(), self.start as int, self.end as int) =~= old(self)@.drop_last()); }
//@ fn IntoIter<T> as Drop::drop
attr #[verifier::loop_isolation(false)]
attr #[verifier::allow_complex_invariants]
    requires old(self).wf(), all_glue_ok(old(self)@)
    ensures !final(self).buf.live()
//@ rewrite for _ in &mut *self {} ==> while drop_popped(self.next()) {}
//@ rewrite alloc::dealloc(self.buf.as_ptr() as *mut u8, layout) ==> self.buf.dealloc(layout)
//@ loop 0
            invariant self.wf(), all_glue_ok(self@), self.cap == old(self).cap
            ensures self.start == self.end
            decreases self.end - self.start
