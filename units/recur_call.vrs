// the recursion mode over the call stack, and the comparison over it
//@subst P::RecurMode::recur => CallStack::recur
//@subst P::RecurMode::default => CallStack::default
//@subst P::RecurMode => CallStack
//@subst self.recur_mode.next => self.recur_mode.next::<P>
//@item equiv @ Equiv
//@ header pub struct Equiv<P: Params>
//@ fields descend_mode recur_mode
//@end
//@selfty RecurMode<P> for CallStack
//@item callstack @ CallStack
//@ header pub struct CallStack
//@end
pub open spec fn popped<N: Node>(q0: Q, r: Option<CounterpartsResult<N>>, q1: Q) -> bool { r is None && took(q0, r, q1) }
impl CallStack {
    pub open spec fn flat(&self) -> Q { Seq::empty() }
//@fn callstack @ CallStack as Default::default
//@end
//@fn CallStack as RecurMode::recur
//@ generics <P: Params>
//@ params it edges_iter0
//@ attr #[verifier::loop_isolation(false)]
//@ rettype Result<<P::Node as Node>::Cmp, P::Error>
//@ spec requires law_cmp::<P::Node>(), old(it).wf(), ends::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st()),
      ensures agrees::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st(), r, final(it).st()), r is Err ==> r->Err_0.can(), final(it).wf(),
      decreases need::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st()), 1nat
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
    broadcast use {cons_facts, cons_pop, seq_more, seq_end, seq_nil, seq_stop, seq_ends, first_ends, after_took, took_cons};
//@ role edges_iter = recv:next
//@ role nx = res:next
//@ loop invariant law_cmp::<P::Node>(), it.wf(), after_ends::<P::Node, P::Error, P::DescendMode>(true, @nx, @edges_iter.rest(), it.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             after::<P::Node, P::Error, P::DescendMode>(true, @nx, @edges_iter.rest(), it.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st(), r, s1),
          after_need::<P::Node, P::Error, P::DescendMode>(true, @nx, @edges_iter.rest(), it.st()) <= need::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st()) + 1,
        decreases after_need::<P::Node, P::Error, P::DescendMode>(true, @nx, @edges_iter.rest(), it.st()),
//@ alt
//@ role edges_iter = recv:next:loop
//@ loop invariant law_cmp::<P::Node>(), it.wf(), ends::<P::Node, P::Error, P::DescendMode>(true, @edges_iter.rest(), it.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             agrees::<P::Node, P::Error, P::DescendMode>(true, @edges_iter.rest(), it.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st(), r, s1),
          need::<P::Node, P::Error, P::DescendMode>(true, @edges_iter.rest(), it.st()) <= need::<P::Node, P::Error, P::DescendMode>(true, edges_iter0.rest(), old(it).st()),
        decreases need::<P::Node, P::Error, P::DescendMode>(true, @edges_iter.rest(), it.st()),
//@end
//@fn CallStack as RecurMode::next
//@ generics <P: Params>
//@ rettype Option<CounterpartsResult<P::Node>>
//@ spec ensures popped(old(self).flat(), r, final(self).flat()),
//@end
//@fn CallStack as RecurMode::reset
//@ spec ensures r.flat() == Seq::<Item>::empty(),
//@end
}
impl<P: Params> Equiv<P> {
    pub closed spec fn q(&self) -> Q { Seq::empty() }
    pub open spec fn tidy(&self) -> bool { true }
    pub closed spec fn st(&self) -> <P::DescendMode as DescendMode<P::Node, P::Error>>::St { self.descend_mode.st() }
    pub closed spec fn wf(&self) -> bool { self.descend_mode.wf() }
//@fn Equiv::equiv_main
//@ params a b
//@ spec requires law_cmp::<P::Node>(), old(self).wf(), ends::<P::Node, P::Error, P::DescendMode>(true, cons(a.n(), b.n(), Seq::empty()), old(self).st()),
      ensures agrees::<P::Node, P::Error, P::DescendMode>(true, cons(a.n(), b.n(), Seq::empty()), old(self).st(), r, final(self).st()), r is Err ==> r->Err_0.can(), final(self).wf(),
      decreases need::<P::Node, P::Error, P::DescendMode>(true, cons(a.n(), b.n(), Seq::empty()), old(self).st()), 0nat
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
    broadcast use {add_empty, cons_facts, call_leaf, call_kids, kids_end, kids_need};
//@end
//@fn Equiv::equiv
//@ params a0 b0
//@ attr #[verifier::loop_isolation(false)]
//@ role a = arg:equiv_main:0
//@ role b = arg:equiv_main:1
//@ pre proof { assert forall|e: P::Error| e.can() implies #[trigger] VxInto::<P::Error>::conv(&e) == e by { P::law_refl(&e); } }
//@ spec requires law_cmp::<P::Node>(), old(self).wf(), ends::<P::Node, P::Error, P::DescendMode>(true, cons(a0.n(), b0.n(), Seq::empty()), old(self).st()),
      ensures agrees::<P::Node, P::Error, P::DescendMode>(true, cons(a0.n(), b0.n(), Seq::empty()), old(self).st(), r, final(self).st()), r is Err ==> r->Err_0.can(), final(self).wf(),
//@ loop invariant law_cmp::<P::Node>(), self.wf(), ends::<P::Node, P::Error, P::DescendMode>(true, cons(@a.n(), @b.n(), Seq::empty()), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             agrees::<P::Node, P::Error, P::DescendMode>(true, cons(@a.n(), @b.n(), Seq::empty()), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(true, cons(a0.n(), b0.n(), Seq::empty()), old(self).st(), r, s1),
        decreases need::<P::Node, P::Error, P::DescendMode>(true, cons(@a.n(), @b.n(), Seq::empty()), self.st()),
//@ alt
//@ role nx = res:next
//@ role c = res:equiv_main
//@ pre broadcast use {after_took, took_cons, seq_more, seq_ends};
//@ loop invariant law_cmp::<P::Node>(), self.wf(),
          goes_on(Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@c)),
          after_ends::<P::Node, P::Error, P::DescendMode>(true, @nx, Seq::empty(), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             after::<P::Node, P::Error, P::DescendMode>(true, @nx, Seq::empty(), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(true, cons(a0.n(), b0.n(), Seq::empty()), old(self).st(), r, s1),
        decreases after_need::<P::Node, P::Error, P::DescendMode>(true, @nx, Seq::empty(), self.st()),
//@ alt
//@ role nx = res:next
//@ pre broadcast use {after_took, took_cons, seq_more, seq_ends};
//@ loop invariant law_cmp::<P::Node>(), self.wf(),
          after_ends::<P::Node, P::Error, P::DescendMode>(true, @nx, Seq::empty(), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             after::<P::Node, P::Error, P::DescendMode>(true, @nx, Seq::empty(), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(true, cons(a0.n(), b0.n(), Seq::empty()), old(self).st(), r, s1),
        decreases after_need::<P::Node, P::Error, P::DescendMode>(true, @nx, Seq::empty(), self.st()),
//@ alt
//@ role o = res:equiv_main
//@ pre broadcast use {call_rest, rest_nil, seq_ends};
//@ loop invariant law_cmp::<P::Node>(), Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o) is Err ==> Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o)->Err_0.can(), self.wf(),
          rest_ends::<P::Node, P::Error, P::DescendMode>(true, Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o), Seq::empty(), self.st()),
          forall|r: Result<<P::Node as Node>::Cmp, P::Error>, s1: <P::DescendMode as DescendMode<P::Node, P::Error>>::St|
             rest::<P::Node, P::Error, P::DescendMode>(true, Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o), Seq::empty(), self.st(), r, s1) ==>
             #[trigger] agrees::<P::Node, P::Error, P::DescendMode>(true, cons(a0.n(), b0.n(), Seq::empty()), old(self).st(), r, s1),
        decreases rest_need::<P::Node, P::Error, P::DescendMode>(true, Outcome::<<P::Node as Node>::Cmp, P::Error>::out(&@o), Seq::empty(), self.st()),
//@end
}
