// src/generic.rs mod equiv, and the recursion modes
pub trait RParams: Sized { type Node: Node; fn vxc_INITIAL_CAPACITY() -> usize; }
pub trait Params: Sized { type Node: Node; type Error: VxInto<Self::Error>; type DescendMode: DescendMode<Self::Node, Self::Error>; type RP: RParams<Node = Self::Node>; type RE: VxInto<Self::Error>;
    /// the conversion of an error to its own type is core's `impl From<T> for T`
    proof fn law_refl(e: &Self::Error) ensures e.can() ==> VxInto::<Self::Error>::conv(e) == *e; }
pub trait Fresh<N: Node, E: Possible>: DescendMode<N, E> { fn default() -> (r: Self) ensures r.wf(); }
//@selfty Equiv<P>
//@selfty Default for Equiv<P>
//@item equiv @ Equiv
//@ header pub struct Equiv<P: Params>
//@ fields descend_mode recur_mode
//@end
//@ifeq MODE queue stack
//@def M=${RM}
//@def MP=${RM}::<P::RP>
//@def MT=${RM}<P::RP>
//@def RERR=Infallible
//@include proto_lazy.vrs
//@else
//@ifeq MODE custom
//@def M=Custom
/// a recursion mode, which may do and give anything that keeps to its contract
#[verifier::external_body] pub struct Custom { x: u8 }
impl Custom {
    pub open spec fn pend(&self, open: Pairs) -> bool { true }
    #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn recur<P: Params>(it: &mut Equiv<P>, edges_iter: EdgesIter<P::Node>, Tracked(log): Tracked<&mut Log<<P::Node as Node>::Cmp>>) -> (r: Result<<P::Node as Node>::Cmp, P::RE>)
        requires old(log).live(), old(log).open.contains(edges_iter.pair()), law_cmp::<P::Node>(), old(it).pend(old(log).open),
        ensures final(it).pend(final(log).open), final(log).grew(old(log)), final(log).ended(match r { Ok(c) => Ok(c), Err(e) => Err(VxInto::<P::Error>::conv(&e)) }), r is Err ==> r->Err_0.can(),
    { unimplemented!() }
    #[verifier::external_body] pub fn next<P: Params>(&mut self, Tracked(log): Tracked<&mut Log<<P::Node as Node>::Cmp>>) -> (r: Option<CounterpartsResult<P::Node>>)
        requires old(log).live(), law_cmp::<P::Node>(),
        ensures final(log).grew(old(log)), final(log).err is None, match r { Some(Err(c)) => !c.eqv() && final(log).diff == Some(c), _ => final(log).diff is None },
    { unimplemented!() }
    #[verifier::external_body] pub fn reset(self) -> Self { unimplemented!() }
}
//@else
//@def M=CallStack
//@item callstack @ CallStack
//@ header pub struct CallStack
//@end
//@selfty RecurMode<P> for CallStack
impl CallStack {
    pub open spec fn pend(&self, open: Pairs) -> bool { true }
//@fn callstack @ CallStack as Default::default
//@end
//@fn CallStack as RecurMode::recur
//@ generics <P: Params>
//@ params it edges_iter0
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ ghost Tracked(log): Tracked<&mut Log<<P::Node as Node>::Cmp>>
//@ rettype Result<<P::Node as Node>::Cmp, P::Error>
//@ spec requires old(log).live(), old(log).open.contains(edges_iter0.pair()), law_cmp::<P::Node>(), old(it).pend(old(log).open),
        ensures final(it).pend(final(log).open), final(log).grew(old(log)), final(log).ended(r), r is Err ==> r->Err_0.can(),
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
//@ role edges_iter = recv:next
//@ role nx = res:next
//@ loop invariant law_cmp::<P::Node>(), took::<P::Node>(@nx, log), log.grew(old(log)), it.pend(log.open), @edges_iter.pair() == edges_iter0.pair(),
//@ alt
//@ role edges_iter = recv:next:loop
//@ loop invariant law_cmp::<P::Node>(), log.live(), log.grew(old(log)), it.pend(log.open), @edges_iter.pair() == edges_iter0.pair(),
//@end
//@fn CallStack as RecurMode::next
//@ generics <P: Params>
//@ ghost Tracked(log): Tracked<&mut Log<<P::Node as Node>::Cmp>>
//@ rettype Option<CounterpartsResult<P::Node>>
//@ spec ensures r is None, *final(log) == *old(log),
//@end
//@fn CallStack as RecurMode::reset
//@end
}
//@fi
//@def MP=${M}
//@def MT=${M}
//@subst self.recur_mode.next => self.recur_mode.next::<P>
//@fi
//@subst P::RecurMode::recur => ${M}::recur
//@subst P::RecurMode::default => ${MP}::default
//@subst P::RecurMode => ${MT}
/// the log when nx was taken from the pending pairs
pub open spec fn took<N: Node>(nx: Option<CounterpartsResult<N>>, log: &Log<N::Cmp>) -> bool { log.err is None && match nx { Some(Err(c)) => !c.eqv() && log.diff == Some(c), _ => log.diff is None } }
impl<P: Params> Equiv<P> {
    /// what is pending is of pairs in `open`
    pub closed spec fn pend(&self, open: Pairs) -> bool { self.recur_mode.pend(open) && self.descend_mode.wf() }
//@fn Equiv::new
//@ params descend_mode
//@ spec requires descend_mode.wf(), ensures r.pend(Set::empty()),
//@end
//@fn Equiv::equiv_main
//@ params a b
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ ghost Tracked(log): Tracked<&mut Log<<P::Node as Node>::Cmp>>
//@ spec requires law_cmp::<P::Node>(), old(log).live(), old(self).pend(old(log).open),
      ensures final(log).ended(r), final(log).grew(old(log)), final(self).pend(final(log).open), r is Err ==> r->Err_0.can(),
          // no pair of different nodes is taken as equivalent without comparing their values, except as the control component says
          r is Ok && r->Ok_0.eqv() && P::Node::g_id(a.n()) != P::Node::g_id(b.n()) ==> final(log).open.contains((a.n(), b.n())) || final(log).skipped > old(log).skipped,
//@ pre proof { log.cur = Some((a.n(), b.n())); assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
//@end
//@fn Equiv::equiv
//@ params a0 b0
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ ghost Tracked(log): Tracked<&mut Log<<P::Node as Node>::Cmp>>
//@ spec requires law_cmp::<P::Node>(), old(self).pend(Set::empty()), old(log).diff is None, old(log).err is Some ==> restartable(old(log).err->0),
      ensures final(log).ended(r), r is Err ==> r->Err_0.can(),
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
    proof { log.err = None; log.open = Set::empty(); log.cur = None; }
//@ role a = arg:equiv_main:0
//@ role b = arg:equiv_main:1
//@ loop invariant law_cmp::<P::Node>(), log.live(), self.pend(log.open),
//@ alt
//@ role nx = res:next
//@ role c = res:equiv_main
//@ loop invariant law_cmp::<P::Node>(), self.pend(log.open), took::<P::Node>(@nx, log),
          goes_on(Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@c)),
//@ alt
//@ role nx = res:next
//@ loop invariant law_cmp::<P::Node>(), self.pend(log.open), took::<P::Node>(@nx, log),
//@ alt
//@ role o = res:equiv_main
//@ loop invariant law_cmp::<P::Node>(), self.pend(log.open), log.ended(Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o)), Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o) is Err ==> Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o)->Err_0.can(),
//@end
}
impl<P: Params> Equiv<P> where P::DescendMode: Fresh<P::Node, P::Error> {
//@fn Equiv as Default::default
//@ spec ensures r.pend(Set::empty()),
//@end
}
