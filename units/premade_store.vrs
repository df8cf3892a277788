// src/generic/equiv_classes.rs mod premade: the provided pointer and table
// `alloc::rc::Rc` of a `Cell`, as a pointer to a place (its dereferencing is trusted, as are Cell's methods)
pub mod std_rc { use super::*; use super::store::Class; verus!{
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct StdRc<T> { p: *const T }
impl<T> StdRc<T> { pub uninterp spec fn loc(&self) -> Loc; }
impl<R: HasLoc> StdRc<Class<R>> {
    #[verifier::external_body]
    pub fn new(value: Class<R>, Tracked(heap): Tracked<&mut Heap>) -> (r: Self)
        ensures !old(heap).m.dom().contains(r.loc()), stored(old(heap).m, final(heap).m, r.loc(), value@), fits_memory(final(heap).m)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.loc() == self.loc() { unimplemented!() }
    /// a reference to what is pointed to
    #[verifier::external_body]
    pub fn deref(&self) -> (r: CellRef<Class<R>>) ensures r.loc() == self.loc() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: CellRef<Class<R>>) ensures r.loc() == self.loc() { unimplemented!() }
}
/// `&Cell`: a place
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct CellRef<T> { p: *const T }
impl<T> CellRef<T> { pub uninterp spec fn loc(&self) -> Loc; }
impl<R: HasLoc> CellRef<Class<R>> {
    #[verifier::external_body]
    pub fn replace(&self, value: Class<R>, Tracked(heap): Tracked<&mut Heap>) -> (r: Class<R>)
        requires old(heap).m.dom().contains(self.loc()),
        ensures r@ == old(heap).m[self.loc()], stored(old(heap).m, final(heap).m, self.loc(), value@), final(heap).m.dom().contains(self.loc())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, value: Class<R>, Tracked(heap): Tracked<&mut Heap>)
        requires old(heap).m.dom().contains(self.loc()),
        ensures stored(old(heap).m, final(heap).m, self.loc(), value@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn same_place(it: &Self, other: &Self) -> (r: bool) ensures r == (it.loc() == other.loc()) { unimplemented!() }
}
}}
pub mod rc { use super::*; use super::store::Class; use super::std_rc::{CellRef, StdRc}; verus!{
//@item rc @ Rc
//@ header pub struct Rc
//@end
impl HasLoc for Rc { closed spec fn loc(&self) -> Loc { self.0.loc() } }
//@selfty RcTrait for Rc
//@selfty Clone for Rc
//@known deref
impl Rc {
//@fn rc @ Rc as Deref::deref
//@ vis none
//@ rettype CellRef<Class<Self>>
//@ subst &*self.0 => self.0.deref()
//@ subst &self.0 => self.0.deref()
//@ spec ensures r.loc() == self.loc(),
//@end
}
impl super::Rc for Rc {
//@fn rc @ Rc as Clone::clone
//@ vis none
//@end
//@fn rc @ Rc as RcTrait::new
//@ vis none
//@ params value
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@end
    fn replace(&self, value: Class<Self>, Tracked(heap): Tracked<&mut Heap>) -> (r: Class<Self>) { self.deref().replace(value, Tracked(heap)) }
    fn set(&self, value: Class<Self>, Tracked(heap): Tracked<&mut Heap>) { self.deref().set(value, Tracked(heap)) }
    fn same_place(it: &Self, other: &Self) -> (r: bool) { CellRef::same_place(&it.deref(), &other.deref()) }
}
}}
pub mod hash_map { use super::*; use super::rc::Rc; verus!{
/// std's `HashMap` with lawful keys (trusted)
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::accept_recursive_types(B)] pub struct HashMap<A, B> { p: *const A, q: *const B }
impl<A: IdLike, B: HasLoc> HashMap<A, B> {
    pub uninterp spec fn locs(&self) -> Map<int, Loc>;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.locs() == Map::<int, Loc>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.locs() == Map::<int, Loc>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &A) -> (r: Option<&B>)
        ensures match r { Some(c) => self.locs().dom().contains(k.v()) && self.locs()[k.v()] == c.loc(), None => !self.locs().dom().contains(k.v()) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: A, v: B) -> (r: Option<B>) ensures final(self).locs() == old(self).locs().insert(k.v(), v.loc()) { unimplemented!() }
}
pub trait Params: Sized { type Node: Node; fn vxc_INITIAL_CAPACITY() -> usize; }
//@item hash_map @ Table
//@ header #[verifier::reject_recursive_types(P)] pub struct Table<P: Params>
//@end
//@selfty TableTrait for Table<P>
//@selfty Default for Table<P>
impl<P: Params> super::Table for Table<P> {
    type Node = P::Node;
    type Rc = Rc;
    closed spec fn view(&self) -> Map<int, Loc> { self.0.locs() }
//@fn hash_map @ Table as Default::default
//@ vis none
//@end
//@fn hash_map @ Table as TableTrait::get
//@ vis none
//@ params k
//@end
//@fn hash_map @ Table as TableTrait::insert
//@ vis none
//@ params k v
//@end
}
}}
