// src/generic.rs mod precheck_interleave
//@item precheck_interleave @ PrecheckError
//@ header pub enum PrecheckError<E>
//@end
//@item precheck_interleave @ InterleaveError
//@ header pub struct InterleaveError<E>
//@end
//@selfty From<LimitReached> for PrecheckError<E>
impl<E: Possible> Possible for PrecheckError<E> { open spec fn can(&self) -> bool { match self { PrecheckError::LimitReached => true, PrecheckError::RecurError(e) => e.can() } } }
impl<E: Possible> Possible for InterleaveError<E> { open spec fn can(&self) -> bool { self.0.can() } }
// core's `Into` is by these
impl<E: Possible> VxInto<PrecheckError<E>> for LimitReached { open spec fn conv(&self) -> PrecheckError<E> { PrecheckError::LimitReached } fn vx_into(self) -> (r: PrecheckError<E>) { precheck_error_of_limit(self) } }
impl<E: Possible> VxInto<PrecheckError<E>> for PrecheckError<E> { open spec fn conv(&self) -> PrecheckError<E> { *self } fn vx_into(self) -> (r: PrecheckError<E>) { self } }
impl<E: Possible> VxInto<InterleaveError<E>> for InterleaveError<E> { open spec fn conv(&self) -> InterleaveError<E> { *self } fn vx_into(self) -> (r: InterleaveError<E>) { self } }
//@fn PrecheckError as From<LimitReached>::from
//@ name precheck_error_of_limit
//@ generics <E: Possible>
//@ rettype PrecheckError<E>
//@ spec ensures r == PrecheckError::<E>::LimitReached,
//@end
/// a pending-work component made into one of its own type is itself (core's `impl From<T> for T`)
//@unknown into
//@ifeq MODE queue stack
impl<V: RParams> Possible for ${RM}<V> { open spec fn can(&self) -> bool { true } }
impl<V: RParams> VxInto<${RM}<V>> for ${RM}<V> { open spec fn conv(&self) -> ${RM}<V> { *self } fn vx_into(self) -> (r: ${RM}<V>) { self } }
//@else
impl Possible for ${M} { open spec fn can(&self) -> bool { true } }
impl VxInto<${M}> for ${M} { open spec fn conv(&self) -> ${M} { *self } fn vx_into(self) -> (r: ${M}) { self } }
//@fi
impl<P: Params> Equiv<P> where P::DescendMode: Fresh<P::Node, P::Error> {
/// nothing pending is left
//@fn Equiv::from
//@ generics <PF: Params<RP = P::RP, Node = P::Node>>
//@ params e
//@ ptype e = Equiv<PF>
//@ spec ensures r.pend(Set::empty()),
//@end
}
impl<P: Params> Equiv<P> {
//@fn Equiv::into
//@ name vx_into
//@ generics <PT: Params<RP = P::RP, Node = P::Node>>
//@ where where PT::DescendMode: Fresh<PT::Node, PT::Error>
//@ rettype Equiv<PT>
//@ spec ensures r.pend(Set::empty()),
//@end
}
/// what is common to the parameters of both comparisons
pub trait PParams<N: Node>: Sized { type Error: Possible; type InterleaveParams: IParams<Node = N>; type RP: RParams<Node = N>; type PRE: VxInto<PrecheckError<Self::Error>>; type IRE: VxInto<InterleaveError<Self::Error>>; }
//@wire PDM = precheck_interleave | equiv::Params | DescendMode | PrecheckArgs
//@wire IDM = precheck_interleave | equiv::Params | DescendMode | InterleaveArgs
//@wire PER = precheck_interleave | equiv::Params | Error | PrecheckArgs
//@wire IER = precheck_interleave | equiv::Params | Error | InterleaveArgs
pub struct PrecheckArgs<N, P>(N, P);
pub struct InterleaveArgs<N, P>(N, P);
impl<N: Node, P: PParams<N>> Params for PrecheckArgs<N, P> { type Node = N; type Error = ${PER}<P::Error>; type DescendMode = ${PDM}<u16>; type RP = P::RP; type RE = P::PRE; proof fn law_refl(e: &Self::Error) {} }
impl<N: Node, P: PParams<N>> Params for InterleaveArgs<N, P> { type Node = N; type Error = ${IER}<P::Error>; type DescendMode = ${IDM}<P::InterleaveParams>; type RP = P::RP; type RE = P::IRE; proof fn law_refl(e: &Self::Error) {} }
//@fn precheck_interleave @ equiv
//@ subst VxInto::vx_into => Equiv::vx_into
//@ generics <N: NodeClone, P: PParams<N>>
//@ params a b
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ spec requires law_cmp::<N>(), old(log).live(),
          // only after the precheck's limit was reached may another comparison begin
          restartable(tag(PrecheckError::<P::Error>::LimitReached)),
      ensures match r {
          Ok(c) => final(log).ended(Ok::<_, Infallible>(c)),
          // the error is the one a component of recursion gave
          Err(e) => final(log).diff is None && (final(log).err == Some(tag(PrecheckError::<P::Error>::RecurError(e))) || final(log).err == Some(tag(InterleaveError::<P::Error>(e)))),
      },
      r is Err ==> r->Err_0.can(),
//@end
//@ifeq FN custom
//@else
//@wire PERR = ${FN}::${F} | precheck_interleave::Params | Error
pub struct ${ARGS}<N>(N);
impl<N: Node> RParams for ${ARGS}<N> { type Node = N; #[verifier::external_body] fn vxc_INITIAL_CAPACITY() -> usize { 16 } }
impl<N: Node> PParams<N> for ${ARGS}<N> { type Error = ${PERR}; type InterleaveParams = AnyConfig<N>; type RP = Self; type PRE = Infallible; type IRE = Infallible; }
//@fn ${FN} @ precheck_equiv
//@ name premade_precheck_equiv
//@ generics <N: NodeClone>
//@ params a b
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ spec requires law_cmp::<N>(), old(log).live(), restartable(tag(PrecheckError::<Infallible>::LimitReached)),
      ensures final(log).ended(Ok::<_, Infallible>(r)),
//@end
//@fi
