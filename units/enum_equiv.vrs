// src/generic.rs mod equiv, and the recursion modes
pub trait RParams: Sized { type Node: Node; fn vxc_INITIAL_CAPACITY() -> usize; }
pub trait Params: Sized { type Node: Node; type Error: VxInto<Self::Error>; type DescendMode: DescendMode<Self::Node, Self::Error>; type RP: RParams<Node = Self::Node>; type RE: VxInto<Self::Error>; }
pub trait Fresh<N: Node, E: Possible>: DescendMode<N, E> { fn default() -> (r: Self) ensures r.wf(); }
//@selfty Equiv<P>
//@selfty Default for Equiv<P>
//@item equiv @ Equiv
//@ header pub struct Equiv<P: Params>
//@ fields descend_mode recur_mode
//@end
//@ifeq MODE queue stack
//@def M=${RM}
//@def MP=${RM}::<P::RP>
//@def MT=${RM}<P::RP>
//@include enum_lazy.vrs
//@else
//@ifeq MODE custom
//@def M=Custom
/// a recursion mode, which may do anything with the enumerations that it is given
#[verifier::external_body] pub struct Custom { x: u8 }
impl Custom {
    pub open spec fn pend(&self) -> bool { true }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn recur<P: Params>(it: &mut Equiv<P>, edges_iter: EdgesIter<P::Node>) -> (r: Result<<P::Node as Node>::Cmp, P::RE>)
        requires edges_iter.ready(), law_cmp::<P::Node>(), old(it).pend(),
        ensures final(it).pend(), r is Err ==> r->Err_0.can(),
    { unimplemented!() }
    #[verifier::external_body] pub fn next<P: Params>(&mut self) -> (r: Option<CounterpartsResult<P::Node>>)
        requires law_cmp::<P::Node>(),
        ensures r is Some && r->Some_0 is Err ==> !r->Some_0->Err_0.eqv(),
    { unimplemented!() }
    #[verifier::external_body] pub fn reset(self) -> Self { unimplemented!() }
}
//@else
//@def M=CallStack
//@item callstack @ CallStack
//@ header pub struct CallStack
//@end
//@selfty RecurMode<P> for CallStack
impl CallStack {
    pub open spec fn pend(&self) -> bool { true }
//@fn callstack @ CallStack as Default::default
//@end
//@fn CallStack as RecurMode::recur
//@ generics <P: Params>
//@ params it edges_iter0
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ rettype Result<<P::Node as Node>::Cmp, P::Error>
//@ spec requires edges_iter0.ready(), law_cmp::<P::Node>(), old(it).pend(),
        ensures final(it).pend(), r is Err ==> r->Err_0.can(),
//@ role edges_iter = recv:next
//@ role nx = res:next
//@ loop invariant law_cmp::<P::Node>(), it.pend(), stops::<P::Node>(@nx) || @edges_iter.ready(),
//@ alt
//@ role edges_iter = recv:next:loop
//@ loop invariant law_cmp::<P::Node>(), it.pend(), @edges_iter.ready(),
//@end
//@fn CallStack as RecurMode::next
//@ generics <P: Params>
//@ rettype Option<CounterpartsResult<P::Node>>
//@ spec ensures r is None,
//@end
//@fn CallStack as RecurMode::reset
//@end
}
//@fi
//@def MP=${M}
//@def MT=${M}
//@subst self.recur_mode.next => self.recur_mode.next::<P>
//@fi
//@subst P::RecurMode::recur => ${M}::recur
//@subst P::RecurMode::default => ${MP}::default
//@subst P::RecurMode => ${MT}
/// the enumeration that gave this may not go on
pub open spec fn stops<N: Node>(nx: Option<CounterpartsResult<N>>) -> bool { nx is Some && nx->0 is Err }
impl<P: Params> Equiv<P> {
    /// every pending enumeration may go on
    pub closed spec fn pend(&self) -> bool { self.recur_mode.pend() && self.descend_mode.wf() }
//@fn Equiv::new
//@ params descend_mode
//@ spec requires descend_mode.wf(), ensures r.pend(),
//@end
//@fn Equiv::equiv_main
//@ params a b
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec requires law_cmp::<P::Node>(), old(self).pend(),
      ensures final(self).pend(), r is Err ==> r->Err_0.can(),
//@ ghostexpr Tracked(&mut vx_begin)
//@ pre let tracked mut vx_begin = Begin { done: false };
//@end
//@fn Equiv::equiv
//@ params a0 b0
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ spec requires law_cmp::<P::Node>(), old(self).pend(),
      ensures r is Err ==> r->Err_0.can(),
//@ role o = res:equiv_main
//@ loop invariant law_cmp::<P::Node>(), self.pend(), Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o) is Err ==> Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o)->Err_0.can(),
//@ alt
//@ role nx = res:next
//@ loop invariant law_cmp::<P::Node>(), stops::<P::Node>(@nx) || self.pend(),
//@ alt
//@ loop invariant law_cmp::<P::Node>(), self.pend(),
//@end
}
impl<P: Params> Equiv<P> where P::DescendMode: Fresh<P::Node, P::Error> {
//@fn Equiv as Default::default
//@ spec ensures r.pend(),
//@end
}
