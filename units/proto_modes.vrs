// src/{basic,cycle_safe}.rs mod modes: the premade components that control descending
//@selfty DescendMode<N, E> for Unlimited
//@selfty DescendMode<N, E> for Limited<T>
//@selfty DescendMode<N, E> for Interleave<P>
//@selfty Interleave<P>
//@item unlimited @ Unlimited
//@ header pub struct Unlimited
//@end
//@item limited @ Limited
//@ header pub struct Limited<T>
//@end
//@item limited @ LimitReached
//@ header pub struct LimitReached
//@end
impl Possible for LimitReached { open spec fn can(&self) -> bool { true } }
impl VxInto<LimitReached> for LimitReached { open spec fn conv(&self) -> LimitReached { *self } fn vx_into(self) -> (r: LimitReached) { self } }
impl<N: Node, E: Possible> DescendMode<N, E> for Unlimited {
    type Error = Infallible;
    open spec fn wf(&self) -> bool { true }
//@fn Unlimited as DescendMode::do_edges
//@ vis none
//@ params a b
//@ ptype a = &N
//@ ptype b = &N
//@ ghost ${GHOST}
//@end
//@fn Unlimited as DescendMode::do_traverse
//@ vis none
//@ ghost ${GHOST}
//@end
}
impl<N: Node, E: Possible> Fresh<N, E> for Unlimited {
//@fn unlimited @ Unlimited as Default::default
//@ vis none
//@end
}
impl<T: Ticker, N: Node, E: Possible> DescendMode<N, E> for Limited<T> where LimitReached: VxInto<E> {
    type Error = LimitReached;
    open spec fn wf(&self) -> bool { true }
//@fn Limited as DescendMode::do_edges
//@ vis none
//@ params a b
//@ ptype a = &N
//@ ptype b = &N
//@ ghost ${GHOST}
//@end
//@fn Limited as DescendMode::do_traverse
//@ vis none
//@ ghost ${GHOST}
//@ pre proof { T::law_from(0); T::law_from(1); T::law_cmp(&self.0, &self.0); T::law_eq(&self.0, &self.0); T::law_sub(self.0, self.0);  }
    broadcast use tickers;
//@ post ${RECORD}
//@end
}
// ---- the interleave mode, over any store and random numbers
use vstd::std_specs::ops::*;
/// core's `NonZeroU16`
pub struct NonZeroU16(u16);
impl NonZeroU16 {
    pub closed spec fn v(&self) -> u16 { self.0 }
    pub fn new(n: u16) -> (r: Option<NonZeroU16>) ensures match r { Some(x) => n != 0 && x.v() == n, None => n == 0 } { if n == 0 { None } else { Some(NonZeroU16(n)) } }
    pub fn get(self) -> (r: u16) ensures r == self.v() { self.0 }
}
impl Possible for i32 { open spec fn can(&self) -> bool { true } }
//@for T in u16 i16 u8 i8
impl Possible for ${T} { open spec fn can(&self) -> bool { true } }
impl VxInto<i32> for ${T} { open spec fn conv(&self) -> i32 { *self as i32 } fn vx_into(self) -> (r: i32) { let r = self as i32; assert(r == self as int); assert(r.can()); assert(r == VxInto::<i32>::conv(&self)); r } }
//@done
pub trait Random: Sized { fn default() -> Self; fn rand_upto(&mut self, exclusive_end: NonZeroU16) -> (r: u16) requires exclusive_end.v() > 0, ensures r < exclusive_end.v(); }
pub trait Table: Sized { type Node: Node; }
/// the store has no access to nodes, only to their identities
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct EquivClasses<T: Table> { x: core::marker::PhantomData<T> }
impl<T: Table> EquivClasses<T> {
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn same_class(&mut self, a: &<T::Node as Node>::Id, b: &<T::Node as Node>::Id) -> bool { unimplemented!() }
}
pub trait IParams: Sized {
    type Node: Node;
    type Table: Table<Node = Self::Node>;
    type RNG: Random;
    spec fn fast() -> u16;
    spec fn slow() -> u16;
    fn vxc_PRECHECK_LIMIT() -> u16;
    fn vxc_FAST_LIMIT_MAX() -> (r: u16) ensures r == Self::fast();
    fn vxc_SLOW_LIMIT() -> (r: u16) ensures r == Self::slow();
    proof fn accepted() ensures Self::fast() < u16::MAX;
}
//@item interleave @ Interleave
//@ header #[verifier::reject_recursive_types(P)] pub struct Interleave<P: IParams>
//@ fields ticker equiv_classes rng
//@end
//@selfty Default for Interleave<P>
impl<P: IParams> Interleave<P> {
    pub closed spec fn ok(&self) -> bool { -(P::slow() as int) <= self.ticker <= u16::MAX }
//@const Interleave::FAST_LIMIT_MAX_RANGE_END
//@ spec ensures r.v() == P::fast() + 1,
//@ pre proof { P::accepted(); }
//@end
//@const Interleave::SLOW_LIMIT_NEG
//@ spec ensures r == -(P::slow() as int),
//@end
}
impl<N: Node, E: Possible, P: IParams<Node = N>> DescendMode<N, E> for Interleave<P> where Infallible: VxInto<E> {
    type Error = Infallible;
    open spec fn wf(&self) -> bool { self.ok() }
//@fn Interleave as DescendMode::do_edges
//@ vis none
//@ params a b
//@ ptype a = &N
//@ ptype b = &N
//@ ghost ${GHOST}
//@end
//@fn Interleave as DescendMode::do_traverse
//@ vis none
//@ ghost ${GHOST}
//@end
}
impl<N: Node, E: Possible, P: IParams<Node = N>> Fresh<N, E> for Interleave<P> where Infallible: VxInto<E> {
//@fn Interleave as Default::default
//@ vis none
//@end
}
