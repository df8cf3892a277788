// the recursion modes over a lazy collection, and the comparison over them
//@subst P::RecurMode::recur => ${RM}::recur
//@subst P::RecurMode::default => ${RM}::<P::RP>::default
//@subst P::RecurMode => ${RM}<P::RP>
//@item equiv @ Equiv
//@ header pub struct Equiv<P: Params>
//@ fields descend_mode recur_mode
//@end
//@subst ${KIND}<EdgesIter<V::Node>> => ${KIND}<V::Node>
//@selfty ${RM}<V>
//@selfty RecurMode<E> for ${RM}<V>
//@item ${RMOD} @ ${RM}
//@ header pub struct ${RM}<V: RParams>
//@end
//@ifnot SECOND
//@item callstack @ CallStack
//@ header pub struct CallStack
//@end
//@fi
//@selfty From<CallStack> for ${RM}<V>
impl<V: RParams> ${RM}<V> {
    pub closed spec fn flat(&self) -> Q { self.0.flat() }
    pub closed spec fn tidy(&self) -> bool { self.0.tidy() }
//@fn ${RMOD} @ ${RM} as Default::default
//@ spec ensures r.flat() == Seq::<Item>::empty(), r.tidy(),
//@end
// what a full comparison begins with after a precheck over the call-stack
//@fn ${RM} as From<CallStack>::from
//@ name from_callstack
//@ params c
//@ spec ensures r.flat() == Seq::<Item>::empty(), r.tidy(),
//@end
//@fn ${RM} as RecurMode::recur
//@ generics <E: Params<RP = V, Node = V::Node>>
//@ params it edges_iter
//@ rettype Result<<E::Node as Node>::Cmp, Infallible>
//@ spec requires edges_iter.rest().len() > 0,
      ensures r is Ok, r->Ok_0.eqv(), final(it).q() == ins(${DFS}, old(it).q(), edges_iter.rest()), final(it).st() == old(it).st(), old(it).wf() ==> final(it).wf(),
          old(it).tidy() ==> final(it).tidy(),
//@end
//@fn ${RM} as RecurMode::next
//@ rettype Option<CounterpartsResult<V::Node>>
//@ spec ensures popped(old(self).flat(), r, final(self).flat()), old(self).tidy() ==> final(self).tidy(),
//@end
//@fn ${RM} as RecurMode::reset
//@ spec ensures r.flat() == Seq::<Item>::empty(), r.tidy(),
//@end
}
impl<P: Params> Equiv<P> {
    pub closed spec fn q(&self) -> Q { self.recur_mode.flat() }
    pub closed spec fn tidy(&self) -> bool { self.recur_mode.tidy() }
    pub closed spec fn st(&self) -> <P::DescendMode as DescendMode<P::Node, P::Error>>::St { self.descend_mode.st() }
    pub closed spec fn wf(&self) -> bool { self.descend_mode.wf() }
//@if TIDY
// only what the space usage needs
//@fn Equiv::equiv_main
//@ params a b
//@ spec requires old(self).wf(),
      ensures old(self).tidy() ==> final(self).tidy(), final(self).wf(), r is Err ==> r->Err_0.can(),
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
    broadcast use add_empty;
//@end
//@fn Equiv::equiv
//@ params a0 b0
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ spec requires old(self).wf(),
      ensures old(self).tidy() ==> final(self).tidy(), final(self).wf(), r is Err ==> r->Err_0.can(),
//@ role o = res:equiv_main
//@ loop invariant old(self).tidy() ==> self.tidy(), self.wf(), Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o) is Err ==> Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o)->Err_0.can(),
//@ alt
//@ loop invariant old(self).tidy() ==> self.tidy(), self.wf(),
//@end
//@else
//@fn Equiv::equiv_main
//@ params a b
//@ spec requires law_cmp::<P::Node>(), old(self).wf(),
      ensures stepped::<P::Node, P::Error, P::DescendMode>(${DFS}, a.n(), b.n(), old(self).q(), old(self).st(), r, final(self).q(), final(self).st()), r is Err ==> r->Err_0.can(),
          old(self).tidy() ==> final(self).tidy(), final(self).wf(),
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
    broadcast use add_empty;
//@end
//@fn Equiv::equiv
//@ params a0 b0
//@ attr #[verifier::loop_isolation(false)]
//@ role a = arg:equiv_main:0
//@ role b = arg:equiv_main:1
//@ spec requires law_cmp::<P::Node>(), old(self).wf(), ends::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(a0.n(), b0.n(), old(self).q()), old(self).st()),
      ensures agrees::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(a0.n(), b0.n(), old(self).q()), old(self).st(), r, final(self).st()), r is Err ==> r->Err_0.can(),
          old(self).tidy() ==> final(self).tidy(), final(self).wf(),
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
    broadcast use {cons_facts, cons_pop, step_more, step_end, step_last, step_ends};
//@ loop invariant law_cmp::<P::Node>(), old(self).tidy() ==> self.tidy(), self.wf(),
          ends::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(@a.n(), @b.n(), self.q()), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             agrees::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(@a.n(), @b.n(), self.q()), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(a0.n(), b0.n(), old(self).q()), old(self).st(), r, s1),
        decreases need::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(@a.n(), @b.n(), self.q()), self.st()),
//@ alt
//@ role nx = res:next
//@ role c = res:equiv_main
//@ pre broadcast use {after_took, took_cons};
//@ loop invariant law_cmp::<P::Node>(), old(self).tidy() ==> self.tidy(), self.wf(),
          goes_on(Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@c)),
          after_ends::<P::Node, P::Error, P::DescendMode>(${DFS}, @nx, self.q(), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             after::<P::Node, P::Error, P::DescendMode>(${DFS}, @nx, self.q(), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(a0.n(), b0.n(), old(self).q()), old(self).st(), r, s1),
        decreases after_need::<P::Node, P::Error, P::DescendMode>(${DFS}, @nx, self.q(), self.st()),
//@ alt
//@ role nx = res:next
//@ pre broadcast use {after_took, took_cons};
//@ loop invariant law_cmp::<P::Node>(), old(self).tidy() ==> self.tidy(), self.wf(),
          after_ends::<P::Node, P::Error, P::DescendMode>(${DFS}, @nx, self.q(), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             after::<P::Node, P::Error, P::DescendMode>(${DFS}, @nx, self.q(), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(a0.n(), b0.n(), old(self).q()), old(self).st(), r, s1),
        decreases after_need::<P::Node, P::Error, P::DescendMode>(${DFS}, @nx, self.q(), self.st()),
//@ alt
//@ role o = res:equiv_main
//@ pre broadcast use {rest_step, rest_nil, rest_stop, took_cons};
//@ loop invariant law_cmp::<P::Node>(), Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o) is Err ==> Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o)->Err_0.can(), old(self).tidy() ==> self.tidy(), self.wf(),
          rest_ends::<P::Node, P::Error, P::DescendMode>(${DFS}, Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o), self.q(), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             rest::<P::Node, P::Error, P::DescendMode>(${DFS}, Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o), self.q(), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(${DFS}, cons(a0.n(), b0.n(), old(self).q()), old(self).st(), r, s1),
        decreases rest_need::<P::Node, P::Error, P::DescendMode>(${DFS}, Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o), self.q(), self.st()),
//@end
//@fi
}
