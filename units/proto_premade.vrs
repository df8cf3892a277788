// the premade functions: src/{basic,deep_safe,wide_safe,cycle_safe,robust}.rs, src/generic.rs mod precheck_interleave
/// the tables and random-number generators of the premade functions have no access to nodes
#[verifier::external_body] #[verifier::accept_recursive_types(N)] pub struct AnyTable<N> { x: core::marker::PhantomData<N> }
impl<N: Node> Table for AnyTable<N> { type Node = N; }
#[verifier::external_body] pub struct AnyRandom { x: u8 }
impl Random for AnyRandom { #[verifier::external_body] fn default() -> Self { unimplemented!() } #[verifier::external_body] fn rand_upto(&mut self, exclusive_end: NonZeroU16) -> (r: u16) { unimplemented!() } }
/// a configuration: any that is accepted at compile time
pub uninterp spec fn the_fast() -> u16;
pub uninterp spec fn the_slow() -> u16;
#[verifier::external_body] proof fn the_fast_accepted() ensures the_fast() < u16::MAX {}
#[verifier::external_body] fn vx_the_fast() -> (r: u16) ensures r == the_fast() { 800 }
#[verifier::external_body] fn vx_the_slow() -> (r: u16) ensures r == the_slow() { 40 }
#[verifier::external_body] fn vx_the_precheck() -> (r: u16) { 400 }
pub struct AnyConfig<N>(N);
impl<N: Node> IParams for AnyConfig<N> {
    type Node = N; type Table = AnyTable<N>; type RNG = AnyRandom;
    open spec fn fast() -> u16 { the_fast() }
    open spec fn slow() -> u16 { the_slow() }
    fn vxc_PRECHECK_LIMIT() -> u16 { vx_the_precheck() }
    fn vxc_FAST_LIMIT_MAX() -> (r: u16) { vx_the_fast() }
    fn vxc_SLOW_LIMIT() -> (r: u16) { vx_the_slow() }
    proof fn accepted() { the_fast_accepted(); }
}
//@include into_ok.vrs
//@ifeq F equiv limited_equiv
//@wire WDM = ${FN}::${F} | equiv::Params | DescendMode
//@wire WERR = ${FN}::${F} | equiv::Params | Error
pub struct ${ARGS}<N, L>(N, L);
impl<N: Node, L> RParams for ${ARGS}<N, L> { type Node = N; #[verifier::external_body] fn vxc_INITIAL_CAPACITY() -> usize { 16 } }
//@fi
//@ifeq F equiv
//@ifeq WDM Interleave
//@def DM=Interleave<AnyConfig<N>>
//@else
//@def DM=${WDM}
//@fi
impl<N: Node> Params for ${ARGS}<N, ()> { type Node = N; type Error = ${WERR}; type DescendMode = ${DM}; type RP = Self; type RE = Infallible; proof fn law_refl(e: &Self::Error) {} }
//@fn ${FN} @ equiv
//@ name premade_equiv
//@ subst ${ARGS}<N> => ${ARGS}<N, ()>
//@ params a b
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ spec requires law_cmp::<N>(), old(log).live(),
      ensures final(log).ended(Ok::<_, Infallible>(r)),
//@end
//@fi
//@ifeq F limited_equiv
impl<N: Node, L: Ticker> Params for ${ARGS}<N, L> { type Node = N; type Error = ${WERR}; type DescendMode = ${WDM}<L>; type RP = Self; type RE = Infallible; proof fn law_refl(e: &Self::Error) {} }
//@fn ${FN} @ limited_equiv
//@ name premade_limited_equiv
//@ params limit a b
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ spec requires law_cmp::<N>(), old(log).live(),
      ensures final(log).ended(r),
//@end
//@fi
//@ifeq F precheck_equiv
//@include proto_precheck.vrs
//@fi
