//! memory is a heap of blocks, passed explicitly: alloc, dealloc, and reads and writes through raw pointers to a box are its operations, with the ownership preconditions of the pointer operations as contracts (trusted); an allocation has a fresh address
//! RcMutAlloc and RcMut values are moved, never copied (they are neither Copy nor, for RcMut, Clone); the heap's ghost sets of owners follow their construction and drop
//! a repr(C) box of a flag and a value is laid out as the documentation of Layout::extend says; size_of::<RcMutBox<()>>() is 1; array layouts fit (they have been allocated)
//! the values of a box are sized here (the metadata of a pointer is the layout of its value) and need no drop of their own (they hold slice iterators)
//! init_value returns what it writes through its pointer
//@ crate
pub mod heap {
    use super::*;
    #[derive(PartialEq, Eq, Copy)]
    pub struct Layout { pub size: usize, pub align: usize }
    impl Clone for Layout { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
    #[derive(Debug)]
    pub struct LayoutError;
    pub open spec fn round_up(n: int, a: int) -> int { ((n + a - 1) / a) * a }
    pub open spec fn bigger(a: int, b: int) -> int { if a >= b { a } else { b } }
    /// the layout of a box around a value of layout l
    pub open spec fn box_lay(l: Layout) -> Layout {
        let a = bigger(1, l.align as int);
        Layout { size: round_up(round_up(1, l.align as int) + l.size, a) as usize, align: a as usize }
    }
    /// a valid layout a box of which is valid, too
    pub open spec fn boxable(l: Layout) -> bool { l.align >= 1 && 4 * l.align + l.size < 0x7fff_ffff }
    impl Layout {
        /// Layout::new::<RcMutBox<()>>()
        #[verifier::external_body]
        pub fn of_unit_box() -> (r: Layout) ensures r.size == 1, r.align == 1 { unimplemented!() }
        #[verifier::external_body]
        pub fn extend(&self, next: Layout) -> (r: Result<(Layout, usize), LayoutError>)
            ensures
                boxable(next) && self.size <= 1 && self.align <= 1 ==> r is Ok,
                r is Ok ==> r->Ok_0.1 == round_up(self.size as int, next.align as int) && r->Ok_0.0.size == r->Ok_0.1 + next.size && r->Ok_0.0.align == bigger(self.align as int, next.align as int)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn pad_to_align(&self) -> (r: Layout)
            ensures r.align == self.align, r.size as int == round_up(self.size as int, self.align as int)
        { unimplemented!() }
    }
    /// what alloc returns
    #[verifier::external_body]
    pub struct Mem { x: usize }
    impl Mem {
        pub uninterp spec fn addr(&self) -> int;
        #[verifier::external_body]
        pub fn as_ptr(self) -> (r: Mem) ensures r.addr() == self.addr() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn handle_alloc_error<R>(l: Layout) -> (r: R) ensures false { unimplemented!() }
    /// a pointer to a box, with the layout of its value as metadata
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct BoxPtr<T> { x: core::marker::PhantomData<T> }
    impl<T> Copy for BoxPtr<T> {}
    impl<T> Clone for BoxPtr<T> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl<T> BoxPtr<T> {
        pub uninterp spec fn addr(&self) -> int;
        pub uninterp spec fn val_lay(&self) -> Layout;
        #[verifier::external_body]
        pub fn as_ptr(self) -> (r: Self) ensures r == self { unimplemented!() }
        /// NonNull::new
        #[verifier::external_body]
        pub fn non_null(p: BoxPtr<T>) -> (r: Option<Self>) ensures r == Some(p) { unimplemented!() }
        #[verifier::external_body]
        pub fn cast(self) -> (r: Mem) ensures r.addr() == self.addr() { unimplemented!() }
    }
    /// Layout::for_value(box)
    #[verifier::external_body]
    pub fn layout_of<T>(p: BoxPtr<T>) -> (r: Layout) ensures r == box_lay(p.val_lay()) { unimplemented!() }
    /// a block of memory: what it was allocated for, the flag and the value if they have been written
    pub ghost struct Block<T> { pub layout: Layout, pub shared: Option<bool>, pub value: Option<T> }
    pub struct Heap<T> {
        pub blocks: Ghost<Map<int, Block<T>>>,
        /// the boxes a RcMutAlloc owns, or has a part in
        pub allocs: Ghost<Set<int>>,
        /// those a RcMut does
        pub rcs: Ghost<Set<int>>,
    }
    impl<T> Heap<T> {
        pub open spec fn live(&self, a: int) -> bool { self.blocks@.contains_key(a) }
        pub open spec fn value(&self, a: int) -> Option<T> { self.blocks@[a].value }
        /// every block has an owner; the flag says whether it has both; an RcMut's value has been written
        pub open spec fn inv(&self) -> bool {
            &&& forall|a: int| #![trigger self.live(a)] #![trigger self.allocs@.contains(a)] #![trigger self.rcs@.contains(a)] self.live(a) == (self.allocs@.contains(a) || self.rcs@.contains(a))
            &&& forall|a: int| #![trigger self.live(a)] #![trigger self.blocks@[a]] self.live(a) ==> self.blocks@[a].shared == Some(self.allocs@.contains(a) && self.rcs@.contains(a))
            &&& forall|a: int| #[trigger] self.rcs@.contains(a) ==> self.blocks@[a].value is Some
        }
        pub open spec fn same_owners(&self, o: &Self) -> bool { self.allocs == o.allocs && self.rcs == o.rcs }
        /// nothing differs but at a
        pub open spec fn same_but(&self, o: &Self, a: int) -> bool {
            &&& forall|b: int| b != a ==> #[trigger] self.live(b) == o.live(b)
            &&& forall|b: int| #![trigger self.blocks@[b]] b != a && o.live(b) ==> self.blocks@[b] == o.blocks@[b]
            &&& forall|b: int| b != a ==> #[trigger] self.allocs@.contains(b) == o.allocs@.contains(b)
            &&& forall|b: int| b != a ==> #[trigger] self.rcs@.contains(b) == o.rcs@.contains(b)
        }
        /// alloc::alloc
        #[verifier::external_body]
        pub fn alloc(&mut self, l: Layout) -> (r: Option<Mem>)
            requires l.size > 0
            ensures
                final(self).same_owners(old(self)), r is None ==> *final(self) == *old(self),
                r is Some ==> !old(self).live(r->Some_0.addr()) && final(self).blocks@ == old(self).blocks@.insert(r->Some_0.addr(), Block { layout: l, shared: None, value: None })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn dealloc(&mut self, m: Mem, l: Layout)
            requires old(self).live(m.addr()), old(self).blocks@[m.addr()].layout == l
            ensures final(self).same_owners(old(self)), final(self).blocks@ == old(self).blocks@.remove(m.addr())
        { unimplemented!() }
        /// ptr::drop_in_place of a box
        #[verifier::external_body]
        pub fn drop_in_place(&mut self, p: BoxPtr<T>)
            requires old(self).live(p.addr()), old(self).blocks@[p.addr()].value is Some, old(self).blocks@[p.addr()].shared is Some
            ensures final(self).same_owners(old(self)), final(self).blocks@ == old(self).blocks@.insert(p.addr(), Block { value: None, ..old(self).blocks@[p.addr()] })
        { unimplemented!() }
    }
    /// a pointer to the flag of a box, a Cell
    #[verifier::external_body]
    pub struct Flag { x: usize }
    impl Copy for Flag {}
    impl Clone for Flag {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn flag_of<T>(p: BoxPtr<T>) -> (r: Flag) ensures r.addr() == p.addr() { unimplemented!() }
    pub open spec fn flagged<T>(b: Block<T>, v: bool) -> Block<T> { Block { shared: Some(v), ..b } }
    impl Flag {
        pub uninterp spec fn addr(&self) -> int;
        #[verifier::external_body]
        pub fn as_ref(self) -> (r: Option<Flag>) ensures r == Some(self) { unimplemented!() }
        #[verifier::external_body]
        pub fn write<T>(self, v: bool, h: &mut Heap<T>)
            requires old(h).live(self.addr())
            ensures final(h).same_owners(old(h)), final(h).blocks@ == old(h).blocks@.insert(self.addr(), flagged(old(h).blocks@[self.addr()], v))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn set<T>(self, v: bool, h: &mut Heap<T>)
            requires old(h).live(self.addr()), old(h).blocks@[self.addr()].shared is Some
            ensures final(h).same_owners(old(h)), final(h).blocks@ == old(h).blocks@.insert(self.addr(), flagged(old(h).blocks@[self.addr()], v))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn replace<T>(self, v: bool, h: &mut Heap<T>) -> (r: bool)
            requires old(h).live(self.addr()), old(h).blocks@[self.addr()].shared is Some
            ensures Some(r) == old(h).blocks@[self.addr()].shared, final(h).same_owners(old(h)), final(h).blocks@ == old(h).blocks@.insert(self.addr(), flagged(old(h).blocks@[self.addr()], v))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get<T>(self, h: &Heap<T>) -> (r: bool)
            requires h.live(self.addr()), h.blocks@[self.addr()].shared is Some
            ensures Some(r) == h.blocks@[self.addr()].shared
        { unimplemented!() }
    }
    /// a pointer to the value of a box
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Spot<T> { x: core::marker::PhantomData<T> }
    #[verifier::external_body]
    pub fn value_of<T>(p: BoxPtr<T>) -> (r: Spot<T>) ensures r.addr() == p.addr() { unimplemented!() }
    impl<T> Spot<T> {
        pub uninterp spec fn addr(&self) -> int;
        #[verifier::external_body]
        pub fn write(self, v: T, h: &mut Heap<T>)
            requires old(h).live(self.addr())
            ensures final(h).same_owners(old(h)), final(h).blocks@ == old(h).blocks@.insert(self.addr(), Block { value: Some(v), ..old(h).blocks@[self.addr()] })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_ref<'h>(self, h: &'h Heap<T>) -> (r: Option<&'h T>)
            requires h.live(self.addr()), h.blocks@[self.addr()].value is Some
            ensures r is Some, *r->Some_0 == h.blocks@[self.addr()].value->Some_0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_mut<'h>(self, h: &'h mut Heap<T>) -> (r: Option<&'h mut T>)
            requires old(h).live(self.addr()), old(h).blocks@[self.addr()].value is Some
            ensures
                r is Some, *r->Some_0 == old(h).blocks@[self.addr()].value->Some_0, final(h).same_owners(old(h)),
                final(h).blocks@ == old(h).blocks@.insert(self.addr(), Block { value: Some(*final(r->Some_0)), ..old(h).blocks@[self.addr()] })
        { unimplemented!() }
    }
}
//@ module rc_mut from src/rc_mut.rs
//@ uses
use super::*;
use super::heap::*;
//@ only AllocHelper;RcMutAlloc;RcMutAlloc::box_layout;RcMutAlloc::allocate_for_layout;RcMutAlloc::new_for_layout;RcMutAlloc::make_mut_init_raw;RcMutAlloc<T,H> as Clone;RcMutAlloc<T,H> as Drop;RcMut;RcMut<T> as Drop;RcMut<T> as Deref;RcMut<T> as DerefMut
//@ drop RcMutAlloc::new_slice;RcMutAlloc::len;RcMutAlloc::make_mut_slice_from_fn;RcMutAlloc::new;RcMutAlloc::make_mut
//@ rewrite T: ?Sized ==> T
//@ rewrite alloc::Layout::new::<RcMutBox<()>>() ==> Layout::of_unit_box()
//@ rewrite alloc::Layout::for_value(self.0.as_ref()) ==> layout_of(self.0)
//@ rewrite alloc::Layout ==> Layout
//@ rewrite NonNull<RcMutBox<T>> ==> BoxPtr<T>
//@ rewrite *mut RcMutBox<T> ==> BoxPtr<T>
//@ rewrite *mut u8 ==> Mem
//@ rewrite NonNull::new(alloc::alloc(layout)) ==> h.alloc(layout)
//@ rewrite alloc::handle_alloc_error ==> handle_alloc_error
//@ rewrite NonNull::new($p) ==> BoxPtr::non_null($p)
//@ rewrite &*ptr::addr_of_mut!((*$p).shared) ==> flag_of($p)
//@ rewrite (*ptr::addr_of_mut!((*$p).shared)) ==> flag_of($p)
//@ rewrite & unsafe { self.0.as_ref() }.shared ==> flag_of(self.0)
//@ rewrite ptr::addr_of_mut!((*$p).shared) ==> flag_of($p)
//@ rewrite unsafe { self.0.as_ref() }.shared ==> flag_of(self.0)
//@ rewrite self.0.as_ref().shared ==> flag_of(self.0)
//@ rewrite ptr::addr_of_mut!((*$p).value) as *mut T ==> value_of($p)
//@ rewrite &mut *self.0.as_ref().value.get() ==> value_of(self.0).as_mut(h).unwrap()
//@ rewrite &*self.0.as_ref().value.get() ==> value_of(self.0).as_ref(h).unwrap()
//@ rewrite self.0.as_ref().value.get().as_ref() ==> value_of(self.0).as_ref(h)
//@ rewrite self.0.as_ref().value.get().as_mut() ==> value_of(self.0).as_mut(h)
//@ rewrite .write(Cell::new($v)) ==> .write($v, h)
//@ rewrite .replace($v) ==> .replace($v, h)
//@ rewrite .set($v) ==> .set($v, h)
//@ rewrite shared.get() ==> shared.get(h)
//@ rewrite .unwrap_unchecked() ==> .unwrap()
//@ rewrite ptr::drop_in_place($p) ==> h.drop_in_place($p)
//@ rewrite alloc::dealloc($a) ==> h.dealloc($a)
//@ rewrite self.clone() ==> self.clone(h)
//@ rewrite *self = $e; ==> let new_self = $e; self.drop(h); *self = new_self;
//@ rewrite init_value(value); ==> value.write(init_value(), h);
//@ rewrite Self::allocate_for_layout($a) ==> Self::allocate_for_layout($a, h)
//@ rewrite fn allocate_for_layout(helper: &H) ==> fn allocate_for_layout(helper: &H, h: &mut Heap<T>)
//@ rewrite fn new_for_layout(helper: H) ==> fn new_for_layout(helper: H, h: &mut Heap<T>)
//@ rewrite fn make_mut_init_raw(&mut self, init_value: impl FnOnce(*mut T)) ==> fn make_mut_init_raw<F: FnOnce() -> T>(&mut self, init_value: F, h: &mut Heap<T>)
//@ rewrite fn clone(&self) ==> pub fn clone(&self, h: &mut Heap<T>)
//@ rewrite fn drop(&mut self) ==> pub fn drop(&mut self, h: &mut Heap<T>)
//@ rewrite fn deref(&self) -> &Self::Target ==> pub fn deref<'h>(&self, h: &'h Heap<T>) -> &'h T
//@ rewrite fn deref_mut(&mut self) -> &mut Self::Target ==> pub fn deref_mut<'h>(&mut self, h: &'h mut Heap<T>) -> &'h mut T
//@ rewrite type Target = T; ==>
//@ rewrite fn layout(&self) -> Layout; ==> spec fn lay(&self) -> Layout; fn layout(&self) -> Layout;
//@ text
/// a clone of the helper is the helper
pub open spec fn clones<H: Clone>() -> bool {
    &&& forall|h: H| #[trigger] call_requires(H::clone, (&h,))
    &&& forall|h: H, r: H| #[trigger] call_ensures(H::clone, (&h,), r) ==> r == h
}
impl<T, H: AllocHelper<T>> RcMutAlloc<T, H> {
    pub open spec fn addr(&self) -> int { self.0.addr() }
    /// this owner of a box, in h
    pub open spec fn wf(&self, h: &Heap<T>) -> bool {
        &&& h.allocs@.contains(self.addr()) && h.live(self.addr())
        &&& boxable(self.1.lay()) && h.blocks@[self.addr()].layout == box_lay(self.1.lay()) && self.0.val_lay() == self.1.lay()
    }
}
impl<T> RcMut<T> {
    pub open spec fn addr(&self) -> int { self.0.addr() }
    pub open spec fn wf(&self, h: &Heap<T>) -> bool {
        h.rcs@.contains(self.addr()) && h.live(self.addr()) && boxable(self.0.val_lay()) && h.blocks@[self.addr()].layout == box_lay(self.0.val_lay())
    }
}
/// What an owner of the value at a relies on.
pub open spec fn kept<T>(h0: &Heap<T>, h1: &Heap<T>, a: int) -> bool {
    h0.rcs@.contains(a) ==> h1.rcs@.contains(a) && h1.live(a) && h1.value(a) == h0.value(a) && h1.blocks@[a].layout == h0.blocks@[a].layout
}
/// Whatever is done through other owners, in any order, a row's value stays.
pub proof fn theorem_row_undisturbed<T>(hs: Seq<Heap<T>>, r: RcMut<T>)
    requires
        hs.len() > 0, hs[0].inv(), r.wf(&hs[0]),
        forall|i: int| #![trigger hs[i]] 0 <= i < hs.len() - 1 ==> kept(&hs[i], &hs[i + 1], r.addr()),
    ensures r.wf(&hs.last()), hs.last().value(r.addr()) == hs[0].value(r.addr()),
    decreases hs.len()
{
    if hs.len() > 1 {
        let front = hs.drop_last();
        assert forall|i: int| #![trigger front[i]] 0 <= i < front.len() - 1 implies kept(&front[i], &front[i + 1], r.addr()) by { assert(front[i] == hs[i] && front[i + 1] == hs[i + 1]); }
        theorem_row_undisturbed(front, r);
        assert(kept(&hs[hs.len() - 2], &hs[hs.len() - 1], r.addr()));
    }
}
/// Once every owner is gone, so is the memory.
pub proof fn theorem_all_released<T>(h: &Heap<T>)
    requires h.inv(), forall|a: int| !h.allocs@.contains(a), forall|a: int| !h.rcs@.contains(a)
    ensures forall|a: int| !h.live(a)
{
}
proof fn lemma_box_size(l: Layout)
    requires boxable(l)
    ensures box_lay(l).size > 0, box_lay(l).size as int == round_up(round_up(1, l.align as int) + l.size, bigger(1, l.align as int)), round_up(1, l.align as int) == l.align
{
    let a = l.align as int;
    assert(a / a == 1) by (nonlinear_arith) requires a >= 1;
    assert(1 * a == a) by (nonlinear_arith);
    let n = a + l.size + a - 1;
    assert(n / a >= 1) by (nonlinear_arith) requires n >= a, a >= 1;
    assert((n / a) * a >= 1) by (nonlinear_arith) requires n / a >= 1, a >= 1;
    assert((n / a) * a <= n) by (nonlinear_arith) requires n >= 0, a >= 1;
}
//@ item RcMutAlloc<T,H> as Clone
header <T, H> RcMutAlloc<T, H> where H: AllocHelper<T> + Clone
//@ item RcMutAlloc<T,H> as Drop
header <T, H: AllocHelper<T>> RcMutAlloc<T, H>
//@ item RcMut<T> as Drop
header <T> RcMut<T>
//@ item RcMut<T> as Deref
header <T> RcMut<T>
//@ item RcMut<T> as DerefMut
header <T> RcMut<T>
//@ fn AllocHelper::layout
    requires boxable(self.lay())
    ensures res == self.lay()
//@ fn AllocHelper::mem_to_box
    ensures res.addr() == mem.addr(), res.val_lay() == self.lay()
//@ fn RcMutAlloc::box_layout
    requires boxable(layout)
    ensures res == box_lay(layout)
//@ start
        proof { lemma_box_size(layout); }
//@ fn RcMutAlloc::allocate_for_layout
    requires boxable(helper.lay())
    ensures
        !old(h).live(res.addr()), res.val_lay() == helper.lay(), final(h).same_owners(old(h)),
        final(h).blocks@ == old(h).blocks@.insert(res.addr(), Block { layout: box_lay(helper.lay()), shared: None, value: None }),
//@ start
        proof { lemma_box_size(helper.lay()); }
//@ fn RcMutAlloc::new_for_layout
    requires old(h).inv(), boxable(helper.lay())
    ensures final(h).inv(), res.wf(final(h)), res.1 == helper, !old(h).live(res.addr()), !final(h).rcs@.contains(res.addr()), final(h).same_but(old(h), res.addr()), forall|a: int| #[trigger] old(h).rcs@.contains(a) ==> kept(old(h), final(h), a)
//@ tailbind r
        proof { h.allocs@ = h.allocs@.insert(r.addr()); }
//@ fn RcMutAlloc<T,H> as Clone::clone
    requires old(h).inv(), boxable(self.1.lay()), clones::<H>()
    ensures final(h).inv(), res.wf(final(h)), res.1 == self.1, !old(h).live(res.addr()), !final(h).rcs@.contains(res.addr()), final(h).same_but(old(h), res.addr()), forall|a: int| #[trigger] old(h).rcs@.contains(a) ==> kept(old(h), final(h), a)
//@ tailbind r
        proof { h.allocs@ = h.allocs@.insert(r.addr()); }
//@ fn RcMutAlloc<T,H> as Drop::drop
    requires old(h).inv(), old(self).wf(old(h))
    ensures
        final(h).inv(), final(h).same_but(old(h), old(self).addr()), !final(h).allocs@.contains(old(self).addr()),
        final(h).rcs@ == old(h).rcs@, forall|a: int| #[trigger] old(h).rcs@.contains(a) ==> kept(old(h), final(h), a),
//@ end
        proof { h.allocs@ = h.allocs@.remove(self.addr()); }
//@ fn RcMutAlloc::make_mut_init_raw
    requires old(h).inv(), old(self).wf(old(h)), clones::<H>(), call_requires(init_value, ())
    ensures
        final(h).inv(), final(self).wf(final(h)), final(self).1 == old(self).1,
        !old(h).rcs@.contains(res.addr()), final(h).rcs@ =~= old(h).rcs@.insert(res.addr()), res.wf(final(h)),
        final(h).value(res.addr()) is Some, call_ensures(init_value, (), final(h).value(res.addr())->Some_0),
        forall|a: int| #[trigger] old(h).rcs@.contains(a) ==> kept(old(h), final(h), a),
        forall|a: int| #![trigger final(h).allocs@.contains(a)] a != old(self).addr() && old(h).allocs@.contains(a) ==> final(h).allocs@.contains(a) && final(h).blocks@[a] == old(h).blocks@[a],
//@ tailbind r
        proof { h.rcs@ = h.rcs@.insert(r.addr()); }
//@ fn RcMut<T> as Drop::drop
    requires old(h).inv(), old(self).wf(old(h))
    ensures
        final(h).inv(), final(h).same_but(old(h), old(self).addr()), final(h).allocs@ == old(h).allocs@, final(h).rcs@ == old(h).rcs@.remove(old(self).addr()), forall|a: int| #[trigger] old(h).rcs@.contains(a) && a != old(self).addr() ==> kept(old(h), final(h), a),
        old(h).allocs@.contains(old(self).addr()) ==> final(h).blocks@[old(self).addr()].layout == old(h).blocks@[old(self).addr()].layout,
//@ end
        proof { h.rcs@ = h.rcs@.remove(self.addr()); }
//@ fn RcMut<T> as Deref::deref
    requires h.inv(), self.wf(h)
    ensures h.value(self.addr()) == Some(*res)
//@ fn RcMut<T> as DerefMut::deref_mut
    requires old(h).inv(), old(self).wf(old(h))
    ensures
        *final(self) == *old(self), old(h).value(old(self).addr()) == Some(*res), final(h).value(old(self).addr()) == Some(*final(res)),
        final(h).inv(), final(h).same_but(old(h), old(self).addr()), final(h).same_owners(old(h)), final(h).blocks@[old(self).addr()].layout == old(h).blocks@[old(self).addr()].layout,
        forall|a: int| #[trigger] old(h).rcs@.contains(a) && a != old(self).addr() ==> kept(old(h), final(h), a),
//@ module stack_box from src/iter_stack.rs
//@ uses
use super::*;
use super::heap::*;
use super::rc_mut::*;
//@ only IterStackAllocHelper;IterStackAllocHelper::new;IterStackAllocHelper as AllocHelper<IterStack<Leaf,Inner>>
//@ rewrite rc_mut::AllocHelper ==> AllocHelper
//@ rewrite *mut rc_mut::RcMutBox<IterStack<Leaf, Inner>> ==> BoxPtr<IterStack<Leaf, Inner>>
//@ rewrite ptr::slice_from_raw_parts_mut(mem, $n) as BoxPtr<IterStack<Leaf, Inner>> ==> box_of_stack::<Leaf, Inner>(mem, $n)
//@ rewrite Layout::array::<Entry<Leaf, Inner>>($n).unwrap() ==> array_of_entries::<Leaf, Inner>($n)
//@ rewrite *mut u8 ==> Mem
//@ text
#[verifier::external_body]
#[verifier::accept_recursive_types(Leaf)]
#[verifier::accept_recursive_types(Inner)]
pub struct IterStack<Leaf, Inner> { x: core::marker::PhantomData<(Leaf, Inner)> }
/// the layout of n entries
pub uninterp spec fn array_lay<Leaf, Inner>(n: int) -> Layout;
#[verifier::external_body]
pub fn array_of_entries<Leaf, Inner>(n: usize) -> (r: Layout)
    requires boxable(array_lay::<Leaf, Inner>(n as int))
    ensures r == array_lay::<Leaf, Inner>(n as int)
{ unimplemented!() }
/// ptr::slice_from_raw_parts_mut(mem, n), as a pointer to the box of a stack of n entries
#[verifier::external_body]
pub fn box_of_stack<Leaf, Inner>(mem: Mem, n: usize) -> (r: BoxPtr<IterStack<Leaf, Inner>>)
    ensures r.addr() == mem.addr(), r.val_lay() == array_lay::<Leaf, Inner>(n as int)
{ unimplemented!() }
//@ in IterStackAllocHelper as AllocHelper<IterStack<Leaf,Inner>>
    open spec fn lay(&self) -> Layout { array_lay::<Leaf, Inner>(self.0 as int) }
//@ fn IterStackAllocHelper::new
    ensures res.0 == len
//@ text
/// The helper's clones are itself.
pub proof fn theorem_helper_clones()
    ensures clones::<IterStackAllocHelper>()
{
}
