//@if SECOND
//@def PRE=super::
//@def PDFS=true
//@def INTO=CallStack
//@else
//@def PRE=
//@def PDFS=${DFS}
//@def INTO=VxInto
//@fi
// src/generic.rs mod precheck_interleave
//@item precheck_interleave @ PrecheckError
//@ header pub enum PrecheckError<E>
//@end
//@item precheck_interleave @ InterleaveError
//@ header pub struct InterleaveError<E>
//@end
//@selfty From<LimitReached> for PrecheckError<E>
impl<E: Possible> Possible for PrecheckError<E> { open spec fn can(&self) -> bool { match self { PrecheckError::LimitReached => true, PrecheckError::RecurError(e) => e.can() } } }
impl<E: Possible> Possible for InterleaveError<E> { open spec fn can(&self) -> bool { self.0.can() } }
// core's `Into` is by these
impl<E: Possible> VxInto<PrecheckError<E>> for LimitReached { open spec fn conv(&self) -> PrecheckError<E> { PrecheckError::LimitReached } fn vx_into(self) -> (r: PrecheckError<E>) { precheck_error_of_limit(self) } }
impl<E: Possible> VxInto<PrecheckError<E>> for PrecheckError<E> { open spec fn conv(&self) -> PrecheckError<E> { *self } fn vx_into(self) -> (r: PrecheckError<E>) { self } }
impl<E: Possible> VxInto<InterleaveError<E>> for InterleaveError<E> { open spec fn conv(&self) -> InterleaveError<E> { *self } fn vx_into(self) -> (r: InterleaveError<E>) { self } }
//@fn PrecheckError as From<LimitReached>::from
//@ name precheck_error_of_limit
//@ generics <E: Possible>
//@ rettype PrecheckError<E>
//@ spec ensures r == PrecheckError::<E>::LimitReached,
//@end
/// a pending-work component made into one of its own type is itself (core's `impl From<T> for T`)
//@unknown into
//@if SECOND
impl CallStack { pub fn vx_into<V: RParams>(self) -> (r: ${RM}<V>) ensures r.flat() == Seq::<Item>::empty(), r.tidy() { ${RM}::<V>::from_callstack(self) } }
//@else
//@ifeq MODE queue stack
impl<V: RParams> Possible for ${RM}<V> { open spec fn can(&self) -> bool { true } }
impl<V: RParams> VxInto<${RM}<V>> for ${RM}<V> { open spec fn conv(&self) -> ${RM}<V> { *self } fn vx_into(self) -> (r: ${RM}<V>) { self } }
//@else
impl Possible for CallStack { open spec fn can(&self) -> bool { true } }
impl VxInto<CallStack> for CallStack { open spec fn conv(&self) -> CallStack { *self } fn vx_into(self) -> (r: CallStack) { self } }
//@fi
//@fi
impl<P: Params> Equiv<P> where P::DescendMode: Fresh {
/// nothing pending is left, and descending is controlled afresh
//@fn Equiv::from
//@ generics <PF: Params<RP = P::RP, Node = P::Node>>
//@ params e
//@ ptype e = ${PRE}Equiv<PF>
//@ subst VxInto::vx_into => ${INTO}::vx_into
//@ spec ensures r.q() == Seq::<Item>::empty(), r.tidy(), exists|d: P::DescendMode| #[trigger] d.fresh() && r.st() == d.st() && r.wf() == d.wf(),
//@end
}
impl<P: Params> ${PRE}Equiv<P> {
//@fn Equiv::into
//@ name vx_into
//@ generics <PT: Params<RP = P::RP, Node = P::Node>>
//@ where where PT::DescendMode: Fresh
//@ rettype Equiv<PT>
//@ spec ensures r.q() == Seq::<Item>::empty(), r.tidy(), exists|d: PT::DescendMode| #[trigger] d.fresh() && r.st() == d.st() && r.wf() == d.wf(),
//@end
}
/// what is common to the parameters of both comparisons
pub trait PParams<N: Node>: Sized { type Error: Possible; type InterleaveParams: IParams<Node = N>; type RP: RParams<Node = N>; }
//@wire PDM = precheck_interleave | equiv::Params | DescendMode | PrecheckArgs
//@wire IDM = precheck_interleave | equiv::Params | DescendMode | InterleaveArgs
//@wire PER = precheck_interleave | equiv::Params | Error | PrecheckArgs
//@wire IER = precheck_interleave | equiv::Params | Error | InterleaveArgs
pub struct PrecheckArgs<N, P>(N, P);
pub struct InterleaveArgs<N, P>(N, P);
impl<N: Node, P: PParams<N>> Params for PrecheckArgs<N, P> { type Node = N; type Error = ${PER}<P::Error>; type DescendMode = ${PDM}<u16>; type RP = P::RP; proof fn law_refl(e: &Self::Error) {} }
impl<N: Node, P: PParams<N>> Params for InterleaveArgs<N, P> { type Node = N; type Error = ${IER}<P::Error>; type DescendMode = ${IDM}<P::InterleaveParams>; type RP = P::RP; proof fn law_refl(e: &Self::Error) {} }
/// the traversal of (a, b) limited to the precheck's limit
pub open spec fn prechecked<N: Node, P: PParams<N>>(a: int, b: int) -> Out<N::Cmp, Infallible, ()> { run::<N, Infallible, Unlimited>(${PDFS}, cons(a, b, Seq::empty()), (), <P::InterleaveParams as PLimit>::precheck() as nat) }
/// r is the result of the full comparison of (a, b) from the start
pub open spec fn by_full<N: Node, P: PParams<N>>(a: int, b: int, r: Result<N::Cmp, P::Error>) -> bool {
    r is Ok && exists|s: IS<<<P::InterleaveParams as IParams>::RNG as Random>::G>, s1: IS<<<P::InterleaveParams as IParams>::RNG as Random>::G>| fresh_st(s)
        && #[trigger] agrees::<N, InterleaveError<P::Error>, Interleave<P::InterleaveParams>>(${DFS}, cons(a, b, Seq::empty()), s, Ok(r->Ok_0), s1)
}
//@fn precheck_interleave @ equiv
//@ subst VxInto::vx_into => ${PRE}Equiv::vx_into
//@ subst Equiv::<PrecheckArgs<N, P>> => ${PRE}Equiv::<PrecheckArgs<N, P>>
//@ subst Equiv<PrecheckArgs<N, P>> => ${PRE}Equiv<PrecheckArgs<N, P>>
//@ generics <N: NodeClone, P: PParams<N>>
//@ params a b
//@ spec requires law_cmp::<N>(), finite_below::<N>(a.n(), b.n()), <P::InterleaveParams as IParams>::slow() >= 1,
      ensures
          // only errors of the recursion component could surface, and these modes of recursion have none
          r is Ok, right::<N>(a.n(), b.n(), r->Ok_0),
          match prechecked::<N, P>(a.n(), b.n()) { Out::OutOfFuel => by_full::<N, P>(a.n(), b.n(), r), Out::Fail(..) => false, Out::Equal(_) => r->Ok_0.eqv(), Out::Diff(c, _) => r->Ok_0 == c },
//@ pre proof {
        let q = cons(a.n(), b.n(), Seq::empty());
        let l = <P::InterleaveParams as PLimit>::precheck() as nat;
        let f = (l + 1) as nat;
        no_fail::<N>(${PDFS}, q, l); limited_exact::<N, PrecheckError<P::Error>, u16>(${PDFS}, q, l);
        ends_by::<N, PrecheckError<P::Error>, Limited<u16>>(${PDFS}, q, l, f);
        one_fine::<N>(a.n(), b.n());
        if law_id::<N>() { run_matches::<N, PrecheckError<P::Error>, Limited<u16>>(${PDFS}, q, l, f); }
        assert(no_equal_stop(q)) by { broadcast use cons_facts; }
        diffs::<N, PrecheckError<P::Error>, Limited<u16>>(${PDFS}, q, l, f);
        one_diff_real::<N, PrecheckError<P::Error>, Limited<u16>>(${PDFS}, a.n(), b.n(), l, f);
        assert forall|s: IS<<<P::InterleaveParams as IParams>::RNG as Random>::G>| fresh_st(s) implies #[trigger] ends::<N, InterleaveError<P::Error>, Interleave<P::InterleaveParams>>(${DFS}, q, s) by { fresh_ends::<N, InterleaveError<P::Error>, P::InterleaveParams>(${DFS}, a.n(), b.n(), s); }
        assert forall|s: IS<<<P::InterleaveParams as IParams>::RNG as Random>::G>, r: Result<N::Cmp, InterleaveError<P::Error>>, s1: IS<<<P::InterleaveParams as IParams>::RNG as Random>::G>|
            fresh_st(s) && #[trigger] agrees::<N, InterleaveError<P::Error>, Interleave<P::InterleaveParams>>(${DFS}, q, s, r, s1) implies r is Ok && right::<N>(a.n(), b.n(), r->Ok_0)
            by { fresh_verdict::<N, InterleaveError<P::Error>, P::InterleaveParams>(${DFS}, a.n(), b.n(), s, r, s1); }
      }
      broadcast use agreed;
//@end
//@ifeq FN custom
//@else
//@wire PERR = ${FN}::${F} | precheck_interleave::Params | Error
//@wire PIP = ${FN}::${F} | precheck_interleave::Params | InterleaveParams
//@ifeq PIP Self
//@else
//@fail the limits of ${FN} are those of ${PIP}
//@fi
impl<N: Node> PParams<N> for ${ARGS}<N> { type Error = ${PERR}; type InterleaveParams = Self; type RP = Self; }
//@fn ${FN} @ precheck_equiv
//@ name premade_precheck_equiv
//@ generics <N: NodeClone>
//@ params a b
//@ spec requires law_cmp::<N>(), finite_below::<N>(a.n(), b.n()),
      ensures right::<N>(a.n(), b.n(), r),
//@end
//@fi
